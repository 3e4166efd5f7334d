From 9a8f645934425b0f9ec36e79dbe8a395d426a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 01/83] fix: onoff_switch must re-check its state after a
 (spurious) wakeup

wait_for_on()/wait_for_off() returned after any wakeup of the condition
variable, so wait_any() could return before any request was finished.
---
 include/stxxl/bits/common/onoff_switch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/onoff_switch.h b/include/stxxl/bits/common/onoff_switch.h
index 2d87fa3..df6393f 100644
--- a/include/stxxl/bits/common/onoff_switch.h
+++ b/include/stxxl/bits/common/onoff_switch.h
@@ -61,14 +61,14 @@ public:
     void wait_for_on()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (!m_on)
+        while (!m_on)
             m_cond.wait(lock);
     }
     //! wait for switch to turn OFF
     void wait_for_off()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (m_on)
+        while (m_on)
             m_cond.wait(lock);
     }
     //! return true if switch is ON
-- 
2.43.0


From d223e7d79302bbdbc6fac436dd8b787fa6003c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 02/83] fix: deadlock between request cancelation and queue
 worker

cancel_request() decremented the queue's semaphore while holding the queue
mutex. If the worker thread had already taken the token of the canceled
request and waited for the mutex, both blocked forever.
---
 lib/io/linuxaio_queue.cpp          | 6 +++++-
 lib/io/request_queue_impl_1q.cpp   | 6 +++++-
 lib/io/request_queue_impl_qwqr.cpp | 7 +++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 08bc72d..8a5469b 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -111,7 +111,11 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
             // request is canceled, but was not yet posted.
             dynamic_cast<linuxaio_request*>(req.get())->completed(false, true);
 
-            num_waiting_requests--; // will never block
+            // the post thread may have taken our token already and be waiting
+            // for the mutex in order to give it back, so release the mutex.
+            lock.unlock();
+
+            num_waiting_requests--;
             return true;
         }
     }
diff --git a/lib/io/request_queue_impl_1q.cpp b/lib/io/request_queue_impl_1q.cpp
index 554978a..2f1faf9 100644
--- a/lib/io/request_queue_impl_1q.cpp
+++ b/lib/io/request_queue_impl_1q.cpp
@@ -96,10 +96,14 @@ bool request_queue_impl_1q::cancel_request(request_ptr& req)
         {
             m_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
 
+    // the worker may have taken our token already and be waiting for the queue
+    // mutex in order to give it back, so do not hold the mutex here.
+    if (was_still_in_queue)
+        m_sem--;
+
     return was_still_in_queue;
 }
 
diff --git a/lib/io/request_queue_impl_qwqr.cpp b/lib/io/request_queue_impl_qwqr.cpp
index 27e471d..5f267cc 100644
--- a/lib/io/request_queue_impl_qwqr.cpp
+++ b/lib/io/request_queue_impl_qwqr.cpp
@@ -114,7 +114,6 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_read_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
     else
@@ -127,10 +126,14 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_write_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
 
+    // the worker may have taken our token already and be waiting for the queue
+    // mutex in order to give it back, so do not hold the mutex here.
+    if (was_still_in_queue)
+        m_sem--;
+
     return was_still_in_queue;
 }
 
-- 
2.43.0


From 6d15f571b1a466d4fa20920a365c9e58d2f2ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 03/83] fix: null pointer dereference when canceling a request
 that just completes

cancel() checked m_file and read it again later, while the I/O thread resets
it to zero upon completion.
---
 lib/io/linuxaio_request.cpp   | 6 ++++--
 lib/io/request_with_state.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 464acc6..172ca07 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -97,11 +97,13 @@ bool linuxaio_request::cancel()
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] cancel()");
 
-    if (!m_file) return false;
+    // completed() may reset m_file concurrently
+    file* const f = m_file;
+    if (!f) return false;
 
     request_ptr req(this);
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
+        disk_queues::get_instance()->get_queue(f->get_queue_id())
         );
     return queue->cancel_request(req);
 }
diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 4560286..1aad134 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -53,10 +53,12 @@ bool request_with_state::cancel()
 {
     STXXL_VERBOSE3_THIS("request_with_state::cancel() " << m_file << " " << m_buffer << " " << m_offset);
 
-    if (m_file)
+    // completed() may reset m_file concurrently
+    file* const f = m_file;
+    if (f)
     {
         request_ptr rp(this);
-        if (disk_queues::get_instance()->cancel_request(rp, m_file->get_queue_id()))
+        if (disk_queues::get_instance()->cancel_request(rp, f->get_queue_id()))
         {
             m_state.set_to(DONE);
             notify_waiters();
-- 
2.43.0


From 20e7483d6f668ca55b2d4fe31f7c2a2baeb343b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 04/83] fix: disk_queues map was modified concurrently without
 a lock

Two threads submitting the first requests for a disk could create two queues
(one was lost with its worker thread) or corrupt the map.
---
 include/stxxl/bits/io/disk_queues.h | 40 +++++++++++++++++------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/stxxl/bits/io/disk_queues.h b/include/stxxl/bits/io/disk_queues.h
index 9aa2312..3c972a4 100644
--- a/include/stxxl/bits/io/disk_queues.h
+++ b/include/stxxl/bits/io/disk_queues.h
@@ -20,6 +20,7 @@
 
 #include <stxxl/bits/namespace.h>
 #include <stxxl/bits/singleton.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/io/iostats.h>
 #include <stxxl/bits/io/request.h>
 #include <stxxl/bits/io/request_queue_impl_qwqr.h>
@@ -43,6 +44,9 @@ class disk_queues : public singleton<disk_queues>
 
 protected:
     request_queue_map queues;
+    //! protects the map, requests are submitted by many threads
+    mutex queues_mutex;
+
     disk_queues()
     {
         stxxl::stats::get_instance(); // initialize stats before ourselves
@@ -54,22 +58,26 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
-        request_queue_map::iterator qi = queues.find(disk);
         request_queue* q;
-        if (qi == queues.end())
         {
-            // create new request queue
+            scoped_mutex_lock lock(queues_mutex);
+            request_queue_map::iterator qi = queues.find(disk);
+            if (qi == queues.end())
+            {
+                // create new request queue
 #if STXXL_HAVE_LINUXAIO_FILE
-            if (dynamic_cast<linuxaio_request*>(req.get()))
-                q = queues[disk] = new linuxaio_queue(
+                if (dynamic_cast<linuxaio_request*>(req.get()))
+                    q = new linuxaio_queue(
                         dynamic_cast<linuxaio_file*>(req->get_file())->get_desired_queue_length()
                         );
-            else
+                else
 #endif
-            q = queues[disk] = new request_queue_impl_qwqr();
+                q = new request_queue_impl_qwqr();
+                queues[disk] = q;
+            }
+            else
+                q = qi->second;
         }
-        else
-            q = qi->second;
 
         q->add_request(req);
     }
@@ -87,18 +95,15 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
-        if (queues.find(disk) != queues.end())
-            return queues[disk]->cancel_request(req);
-        else
-            return false;
+        request_queue* q = get_queue(disk);
+        return q ? q->cancel_request(req) : false;
     }
 
     request_queue * get_queue(DISKID disk)
     {
-        if (queues.find(disk) != queues.end())
-            return queues[disk];
-        else
-            return NULL;
+        scoped_mutex_lock lock(queues_mutex);
+        request_queue_map::iterator qi = queues.find(disk);
+        return qi != queues.end() ? qi->second : NULL;
     }
 
     ~disk_queues()
@@ -115,6 +120,7 @@ public:
     //!                 - NONE, read and write requests are served by turns, alternately
     void set_priority_op(request_queue::priority_op op)
     {
+        scoped_mutex_lock lock(queues_mutex);
         for (request_queue_map::iterator i = queues.begin(); i != queues.end(); i++)
             i->second->set_priority_op(op);
     }
-- 
2.43.0


From 7d6793df9cba2f26a61403b8b85aad966b6724d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 05/83] fix: linuxaio_queue doubled instead of halved the event
 count on EAGAIN

---
 lib/io/linuxaio_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 8a5469b..e3aab8f 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -50,7 +50,7 @@ linuxaio_queue::linuxaio_queue(int desired_queue_length)
     while ((result = syscall(SYS_io_setup, max_events, &context)) == -1 &&
            errno == EAGAIN && max_events > 1)
     {
-        max_events <<= 1;               // try with half as many events
+        max_events >>= 1;               // try with half as many events
     }
     if (result != 0) {
         STXXL_THROW_ERRNO(io_error, "linuxaio_queue::linuxaio_queue"
-- 
2.43.0


From c78b9a4a50afe336dc961f08a05bce5c96a3cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 06/83] fix: linuxaio_queue hangs or leaks when io_submit fails
 with EAGAIN

---
 lib/io/linuxaio_queue.cpp   | 18 ++++--------------
 lib/io/linuxaio_request.cpp | 10 +++++++++-
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index e3aab8f..38ed3c5 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -129,7 +129,6 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
 void linuxaio_queue::post_requests()
 {
     request_ptr req;
-    io_event* events = new io_event[max_events];
 
     for ( ; ; ) // as long as thread is running
     {
@@ -152,17 +151,10 @@ void linuxaio_queue::post_requests()
             // polymorphic_downcast
             while (!dynamic_cast<linuxaio_request*>(req.get())->post())
             {
-                // post failed, so first handle events to make queues (more)
-                // empty, then try again.
-
-                // wait for at least one event to complete, no time limit
-                long num_events = syscall(SYS_io_getevents, context, 1, max_events, events, NULL);
-                if (num_events < 0) {
-                    STXXL_THROW_ERRNO(io_error, "linuxaio_queue::post_requests"
-                                      " io_getevents() nr_events=" << num_events);
-                }
-
-                handle_events(events, num_events, false);
+                // post failed due to a lack of resources. Completed events are
+                // reaped by the wait thread only (there may be none at all), so
+                // leave it some time, then try again.
+                usleep(100);
             }
 
             // request is finally posted
@@ -176,8 +168,6 @@ void linuxaio_queue::post_requests()
             num_waiting_requests++;
         }
     }
-
-    delete[] events;
 }
 
 void linuxaio_queue::handle_events(io_event* events, long num_events, bool canceled)
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 172ca07..184193f 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -83,7 +83,15 @@ bool linuxaio_request::post()
         else
             stats::get_instance()->write_started(m_bytes, now);
     }
-    else if (success == -1 && errno != EAGAIN)
+    else
+    {
+        const int submit_errno = errno;
+        // release the reference taken in fill_control_block()
+        delete reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(cb.aio_data));
+        errno = submit_errno;
+    }
+
+    if (success == -1 && errno != EAGAIN)
         STXXL_THROW_ERRNO(io_error, "linuxaio_request::post"
                           " io_submit()");
 
-- 
2.43.0


From 877f57734782b665283e70e468f4b924bf3a1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 07/83] fix: linuxaio requests ignored errors and short
 transfers reported by the OS

---
 include/stxxl/bits/io/linuxaio_request.h |  1 +
 lib/io/linuxaio_queue.cpp                | 29 ++++++++++++++----
 lib/io/linuxaio_request.cpp              | 38 ++++++++++++++++++++++--
 3 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/include/stxxl/bits/io/linuxaio_request.h b/include/stxxl/bits/io/linuxaio_request.h
index 6ee20e5..7b11950 100644
--- a/include/stxxl/bits/io/linuxaio_request.h
+++ b/include/stxxl/bits/io/linuxaio_request.h
@@ -60,6 +60,7 @@ public:
     bool post();
     bool cancel();
     bool cancel_aio();
+    void check_result(long result);
     void completed(bool posted, bool canceled);
     void completed(bool canceled) { completed(true, canceled); }
 };
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 38ed3c5..1ec052c 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -149,12 +149,25 @@ void linuxaio_queue::post_requests()
             num_free_events--; // might block because too many requests are posted
 
             // polymorphic_downcast
-            while (!dynamic_cast<linuxaio_request*>(req.get())->post())
+            linuxaio_request* areq = dynamic_cast<linuxaio_request*>(req.get());
+            try
             {
-                // post failed due to a lack of resources. Completed events are
-                // reaped by the wait thread only (there may be none at all), so
-                // leave it some time, then try again.
-                usleep(100);
+                while (!areq->post())
+                {
+                    // post failed due to a lack of resources. Completed events
+                    // are reaped by the wait thread only (there may be none at
+                    // all), so leave it some time, then try again.
+                    usleep(100);
+                }
+            }
+            catch (const io_error& ex)
+            {
+                // the OS refused the request for good, this does not affect
+                // any other request
+                areq->error_occured(ex.what());
+                areq->completed(false, false);
+                num_free_events++;
+                continue;
             }
 
             // request is finally posted
@@ -176,7 +189,11 @@ void linuxaio_queue::handle_events(io_event* events, long num_events, bool cance
     {
         // unsigned_type is as long as a pointer, and like this, we avoid an icpc warning
         request_ptr* r = reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(events[e].data));
-        r->get()->completed(canceled);
+        // polymorphic_downcast
+        linuxaio_request* req = dynamic_cast<linuxaio_request*>(r->get());
+        if (!canceled)
+            req->check_result(static_cast<long>(events[e].res));
+        req->completed(canceled);
         delete r;              // release auto_ptr reference
         num_free_events++;
         num_posted_requests--; // will never block
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 184193f..9eb9624 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -22,6 +22,9 @@
 #include <unistd.h>
 #include <sys/syscall.h>
 
+#include <cstring>
+#include <sstream>
+
 STXXL_BEGIN_NAMESPACE
 
 void linuxaio_request::completed(bool posted, bool canceled)
@@ -29,14 +32,18 @@ void linuxaio_request::completed(bool posted, bool canceled)
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] completed(" <<
                            posted << "," << canceled << ")");
 
-    if (!canceled)
+    if (!posted)
+    {
+        // never reached the OS, hence not accounted as started
+    }
+    else if (!canceled)
     {
         if (m_type == READ)
             stats::get_instance()->read_finished();
         else
             stats::get_instance()->write_finished();
     }
-    else if (posted)
+    else
     {
         if (m_type == READ)
             stats::get_instance()->read_canceled(m_bytes);
@@ -46,6 +53,33 @@ void linuxaio_request::completed(bool posted, bool canceled)
     request_with_state::completed(canceled);
 }
 
+//! Evaluate the result of the transfer as delivered by the OS
+void linuxaio_request::check_result(long result)
+{
+    if (result >= 0 && static_cast<size_type>(result) == m_bytes)
+        return;
+
+    if (result >= 0 && m_type == READ &&
+        m_offset + static_cast<offset_type>(result) >= m_file->size())
+    {
+        // read request extends past end-of-file, fill reminder with zeroes
+        memset(static_cast<char*>(m_buffer) + result, 0,
+               m_bytes - static_cast<size_type>(result));
+        return;
+    }
+
+    std::ostringstream msg;
+    msg << "Error in linuxaio_request:"
+        << " offset=" << m_offset
+        << " buffer=" << m_buffer
+        << " bytes=" << m_bytes
+        << " type=" << ((m_type == READ) ? "READ" : "WRITE")
+        << " result=" << result;
+    if (result < 0)
+        msg << " " << strerror(static_cast<int>(-result));
+    error_occured(msg.str());
+}
+
 void linuxaio_request::fill_control_block()
 {
     linuxaio_file* af = dynamic_cast<linuxaio_file*>(m_file);
-- 
2.43.0


From 61434390e4903393030441a4bedec0a2a6cf1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 08/83] fix: linuxaio_request accounted the start of a request
 possibly after its end

---
 lib/io/linuxaio_request.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 9eb9624..745171f 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -103,25 +103,26 @@ bool linuxaio_request::post()
 
     fill_control_block();
     iocb* cb_pointer = &cb;
-    // io_submit might considerable time, so we have to remember the current
-    // time before the call.
+    // io_submit might take considerable time, and the request may even finish
+    // before it returns, so account for the request before the call.
     double now = timestamp();
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
         disk_queues::get_instance()->get_queue(m_file->get_queue_id())
         );
-    long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
-    if (success == 1)
-    {
-        if (m_type == READ)
-            stats::get_instance()->read_started(m_bytes, now);
-        else
-            stats::get_instance()->write_started(m_bytes, now);
-    }
+    if (m_type == READ)
+        stats::get_instance()->read_started(m_bytes, now);
     else
+        stats::get_instance()->write_started(m_bytes, now);
+    long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
+    if (success != 1)
     {
         const int submit_errno = errno;
         // release the reference taken in fill_control_block()
         delete reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(cb.aio_data));
+        if (m_type == READ)
+            stats::get_instance()->read_canceled(m_bytes);
+        else
+            stats::get_instance()->write_canceled(m_bytes);
         errno = submit_errno;
     }
 
-- 
2.43.0


From 278f8251b6c966dd741fef6a5aee9f56a89087aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 09/83] fix: wait_any left a pointer to a dead switch in
 requests when one of them failed

---
 include/stxxl/bits/io/request_operations.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/stxxl/bits/io/request_operations.h b/include/stxxl/bits/io/request_operations.h
index 4d04828..2f79ca3 100644
--- a/include/stxxl/bits/io/request_operations.h
+++ b/include/stxxl/bits/io/request_operations.h
@@ -107,6 +107,20 @@ RequestIterator wait_any(RequestIterator reqs_begin, RequestIterator reqs_end)
 
     onoff_switch sw;
 
+    // no request may keep a pointer to our local switch, even if an exception
+    // is raised because one of the requests failed.
+    struct waiter_guard
+    {
+        RequestIterator m_begin, m_end;
+        onoff_switch* m_sw;
+
+        ~waiter_guard()
+        {
+            for ( ; m_begin != m_end; ++m_begin)
+                (request_ptr(*m_begin))->delete_waiter(m_sw);
+        }
+    } guard = { reqs_begin, reqs_end, &sw };
+
     RequestIterator cur = reqs_begin, result = reqs_end;
 
     for ( ; cur != reqs_end; cur++)
-- 
2.43.0


From a8eaa333504ed4e0c4546aacb3323588784259b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 10/83] fix: delete_block freed a block before discarding it,
 destroying data of the next owner

---
 include/stxxl/bits/mng/block_manager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 4e1514a..17dd88c 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -246,8 +246,9 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
         return;  // self managed disk
     STXXL_VERBOSE_BLOCK_LIFE_CYCLE("BLC:delete " << FMT_BID(bid));
     assert(bid.storage->get_allocator_id() >= 0);
-    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
+    // discard before the space can be handed out to another thread
     disk_files[bid.storage->get_allocator_id()]->discard(bid.offset, bid.size);
+    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
     m_current_allocation -= BlockSize;
-- 
2.43.0


From 1c6c4d965a8064924fe139ea65d30d22e6321884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 11/83] fix: failed block allocations leaked the blocks
 allocated before the failure

---
 include/stxxl/bits/mng/block_manager.h  | 13 ++++++++++++-
 include/stxxl/bits/mng/disk_allocator.h | 12 +++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 17dd88c..f167b53 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -213,7 +213,18 @@ void block_manager::new_blocks_int(
         if (bl[i])
         {
             disk_bids[i].resize(bl[i]);
-            disk_allocators[i]->new_blocks(disk_bids[i]);
+            try
+            {
+                disk_allocators[i]->new_blocks(disk_bids[i]);
+            }
+            catch (...)
+            {
+                // do not leak the blocks already allocated on other disks
+                for (unsigned_type d = 0; d < i; ++d)
+                    for (int_type b = 0; b < bl[d]; ++b)
+                        disk_allocators[d]->delete_block(disk_bids[d][b]);
+                throw;
+            }
         }
     }
 
diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 59ad085..5f93fba 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -240,7 +240,17 @@ void disk_allocator::new_blocks(BID<BlockSize>* begin, BID<BlockSize>* end)
 
     BID<BlockSize>* middle = begin + ((end - begin) / 2);
     new_blocks(begin, middle);
-    new_blocks(middle, end);
+    try
+    {
+        new_blocks(middle, end);
+    }
+    catch (...)
+    {
+        // do not leak the first half
+        for ( ; begin != middle; ++begin)
+            delete_block(*begin);
+        throw;
+    }
 }
 
 //! \}
-- 
2.43.0


From fdd123c4ef0874ab55f3b1dbfea2c1a1f663ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 12/83] fix: block_manager allocation counters were updated
 without synchronisation

---
 include/stxxl/bits/mng/block_manager.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index f167b53..4d24375 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -42,6 +42,7 @@
 #include <stxxl/bits/mng/disk_allocator.h>
 #include <stxxl/bits/mng/block_alloc.h>
 #include <stxxl/bits/mng/config.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/common/simple_vector.h>
 
@@ -77,6 +78,9 @@ class block_manager : public singleton<block_manager>
 
     //! maximum number of bytes allocated during program run.
     uint64 m_maximum_allocation;
+
+    //! protects the allocation counters
+    mutable mutex m_count_mutex;
 #endif // STXXL_MNG_COUNT_ALLOCATION
 
 protected:
@@ -170,15 +174,15 @@ public:
 #if STXXL_MNG_COUNT_ALLOCATION
     //! return total requested allocation in bytes
     uint64 get_total_allocation() const
-    { return m_total_allocation; }
+    { scoped_mutex_lock lock(m_count_mutex); return m_total_allocation; }
 
     //! return currently allocated bytes
     uint64 get_current_allocation() const
-    { return m_current_allocation; }
+    { scoped_mutex_lock lock(m_count_mutex); return m_current_allocation; }
 
     //! return maximum number of bytes allocated during program run.
     uint64 get_maximum_allocation() const
-    { return m_maximum_allocation; }
+    { scoped_mutex_lock lock(m_count_mutex); return m_maximum_allocation; }
 #endif // STXXL_MNG_COUNT_ALLOCATION
 };
 
@@ -240,6 +244,7 @@ void block_manager::new_blocks_int(
     }
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock count_lock(m_count_mutex);
     m_total_allocation += nblocks * BIDType::size;
     m_current_allocation += nblocks * BIDType::size;
     m_maximum_allocation = STXXL_MAX(m_maximum_allocation, m_current_allocation);
@@ -262,6 +267,7 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
     disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock count_lock(m_count_mutex);
     m_current_allocation -= BlockSize;
 #endif // STXXL_MNG_COUNT_ALLOCATION
 }
-- 
2.43.0


From d987fe9204d916166dd8c5d44e6c0c28b619161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 13/83] fix: an obsolete block write still in flight could
 overwrite a newer one issued through a pool

---
 include/stxxl/bits/mng/read_write_pool.h | 9 ++++++---
 include/stxxl/bits/mng/write_pool.h      | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/stxxl/bits/mng/read_write_pool.h b/include/stxxl/bits/mng/read_write_pool.h
index a0e435d..35f4ee9 100644
--- a/include/stxxl/bits/mng/read_write_pool.h
+++ b/include/stxxl/bits/mng/read_write_pool.h
@@ -99,11 +99,14 @@ public:
     //! \return request object of the write operation
     request_ptr write(block_type*& block, bid_type bid)
     {
+        // if there is a copy of this block in the prefetch pool, it is now a
+        // stale copy, so invalidate it and re-hint the block. It may be an
+        // unfinished write request, which must not overtake the new one.
+        bool hinted = p_pool->invalidate(bid);
+
         request_ptr result = w_pool->write(block, bid);
 
-        // if there is a copy of this block in the prefetch pool,
-        // it is now a stale copy, so invalidate it and re-hint the block
-        if (p_pool->invalidate(bid))
+        if (hinted)
             p_pool->hint(bid, *w_pool);
 
         return result;
diff --git a/include/stxxl/bits/mng/write_pool.h b/include/stxxl/bits/mng/write_pool.h
index 18c518b..7f60c69 100644
--- a/include/stxxl/bits/mng/write_pool.h
+++ b/include/stxxl/bits/mng/write_pool.h
@@ -121,8 +121,10 @@ public:
             if (i2->bid == bid) {
                 assert(i2->block != block);
                 STXXL_VERBOSE_WPOOL("WAW dependency");
-                // try to cancel the obsolete request
-                i2->req->cancel();
+                // try to cancel the obsolete request, if it is already being
+                // served wait for it, otherwise it might hit the disk last
+                if (!i2->req->cancel())
+                    i2->req->wait();
                 // invalidate the bid of the stale write request,
                 // prevents prefetch_pool from stealing a stale block
                 i2->bid.storage = 0;
-- 
2.43.0


From 409905cb8d8635a8a901212677ff5383d17a0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 14/83] fix: buffered_writer waited forever if the batch size
 was not smaller than the number of buffers

---
 include/stxxl/bits/mng/buf_writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/buf_writer.h b/include/stxxl/bits/mng/buf_writer.h
index 2aa81b3..118faa5 100644
--- a/include/stxxl/bits/mng/buf_writer.h
+++ b/include/stxxl/bits/mng/buf_writer.h
@@ -73,7 +73,8 @@ public:
     //!        order to flush write requests (bulk buffered writing)
     buffered_writer(unsigned_type write_buf_size, unsigned_type write_batch_size)
         : nwriteblocks((write_buf_size > 2) ? write_buf_size : 2),
-          writebatchsize(write_batch_size ? write_batch_size : 1)
+          // a batch must leave one buffer to be filled, else nothing is ever written
+          writebatchsize(STXXL_MAX<unsigned_type>(1, STXXL_MIN(write_batch_size, nwriteblocks - 1)))
     {
         write_buffers = new block_type[nwriteblocks];
         write_reqs = new request_ptr[nwriteblocks];
-- 
2.43.0


From 2388a43d22ce33cb9f2845c289d3f7d097e1d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 15/83] fix: vector::resize(n, true) must free the blocks cut
 off when shrinking

---
 include/stxxl/bits/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index d87be88..63415a7 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1149,7 +1149,7 @@ private:
             if (m_from != NULL)
                 m_from->set_size(new_bids_size * block_type::raw_size);
             else
-                m_bm->delete_blocks(m_bids.begin() + old_bids_size, m_bids.end());
+                m_bm->delete_blocks(m_bids.begin() + new_bids_size, m_bids.end());
 
             m_bids.resize(new_bids_size);
 
-- 
2.43.0


From 9fd0645021cfd1d7c13136e32eb01eeee2720e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 16/83] fix: vector: shrinking and growing again left cache
 slots of pages that no longer exist

---
 include/stxxl/bits/containers/vector.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 63415a7..687a3a0 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1153,13 +1153,14 @@ private:
 
             m_bids.resize(new_bids_size);
 
-            // don't resize m_page_to_slot or m_page_status, because it is
-            // still needed to check page status and match the mapping
-            // m_slot_to_page
-
-            // clear dirty flag, so these pages will be never written
-            std::fill(m_page_status.begin() + new_pages_size,
-                      m_page_status.end(), (unsigned char)valid_on_disk);
+            // drop the removed pages from the cache, they will never be written
+            for (size_t i = new_pages_size; i < m_page_status.size(); ++i)
+            {
+                if (m_page_to_slot[i] != on_disk)
+                    m_free_slots.push(m_page_to_slot[i]);
+            }
+            m_page_status.resize(new_pages_size);
+            m_page_to_slot.resize(new_pages_size);
         }
 
         m_size = n;
-- 
2.43.0


From c305e549973619dc0988b85779cdfcb57b86ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 17/83] fix: vector_bufwriter: inform the vector of the last
 full block before growing it

---
 include/stxxl/bits/containers/vector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 687a3a0..9d5365c 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -2484,6 +2484,8 @@ public:
 
                 if (m_iter.block_offset() != 0)
                     m_iter.block_externally_updated();
+                else if (m_prevblk != m_iter)
+                    m_prevblk.block_externally_updated();
             }
 
             vector_type& v = *m_iter.parent_vector();
-- 
2.43.0


From 84e94daa75ae8f0df6234ade18d8a27e0cd94bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 18/83] fix: wait_all returned with requests in flight when one
 of them failed

---
 include/stxxl/bits/io/request_operations.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/io/request_operations.h b/include/stxxl/bits/io/request_operations.h
index 2f79ca3..d9eb0c2 100644
--- a/include/stxxl/bits/io/request_operations.h
+++ b/include/stxxl/bits/io/request_operations.h
@@ -27,14 +27,32 @@ STXXL_BEGIN_NAMESPACE
 
 //! Collection of functions to track statuses of a number of requests.
 
-//! Suspends calling thread until \b all given requests are completed.
+//! Suspends calling thread until \b all given requests are completed, also if
+//! some of them failed; the first error is rethrown then.
 //! \param reqs_begin begin of request sequence to wait for
 //! \param reqs_end end of request sequence to wait for
 template <class RequestIterator>
 void wait_all(RequestIterator reqs_begin, RequestIterator reqs_end)
 {
     for ( ; reqs_begin != reqs_end; ++reqs_begin)
-        (request_ptr(*reqs_begin))->wait();
+    {
+        try {
+            (request_ptr(*reqs_begin))->wait();
+        }
+        catch (...)
+        {
+            // the remaining requests still access their buffers, wait for
+            // them as well before the first error is reported.
+            while (++reqs_begin != reqs_end)
+            {
+                try {
+                    (request_ptr(*reqs_begin))->wait();
+                }
+                catch (...) { }
+            }
+            throw;
+        }
+    }
 }
 
 //! Suspends calling thread until \b all given requests are completed.
-- 
2.43.0


From 2438e9722ed62eebb7fa1856b178f20ff04ddc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 19/83] fix: block_prefetcher handed out blocks whose read had
 failed

---
 include/stxxl/bits/mng/block_prefetcher.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/mng/block_prefetcher.h b/include/stxxl/bits/mng/block_prefetcher.h
index 8fe69b3..f196bf9 100644
--- a/include/stxxl/bits/mng/block_prefetcher.h
+++ b/include/stxxl/bits/mng/block_prefetcher.h
@@ -93,6 +93,8 @@ protected:
         int_type ibuffer = pref_buffer[iblock];
         STXXL_VERBOSE1("block_prefetcher: returning buffer " << ibuffer);
         assert(ibuffer >= 0 && ibuffer < nreadblocks);
+        // report a read error before handing out the contents of the buffer
+        read_reqs[ibuffer]->wait(false);
         return (read_buffers + ibuffer);
     }
 
-- 
2.43.0


From 29f9bb2c01c00dea5d6d912c49e78449a7b0be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 20/83] fix: poll() reported completion before the handler ran
 and while the file was still referenced

---
 lib/io/request_with_state.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 1aad134..dad358c 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -60,10 +60,10 @@ bool request_with_state::cancel()
         request_ptr rp(this);
         if (disk_queues::get_instance()->cancel_request(rp, f->get_queue_id()))
         {
-            m_state.set_to(DONE);
-            notify_waiters();
             m_file->delete_request_ref();
             m_file = 0;
+            m_state.set_to(DONE);
+            notify_waiters();
             m_state.set_to(READY2DIE);
             return true;
         }
@@ -83,12 +83,14 @@ bool request_with_state::poll()
 void request_with_state::completed(bool canceled)
 {
     STXXL_VERBOSE3_THIS("request_with_state::completed()");
-    m_state.set_to(DONE);
     if (!canceled)
         m_on_complete(this);
-    notify_waiters();
+    // poll() reports completion from DONE on, hence the handler must have run
+    // and the file may be destroyed
     m_file->delete_request_ref();
     m_file = 0;
+    m_state.set_to(DONE);
+    notify_waiters();
     m_state.set_to(READY2DIE);
 }
 
-- 
2.43.0


From 778292b695a875e6538ce8436793f70c92d83901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 21/83] fix: containers gave back blocks that a shared pool
 still had requests in flight for

---
 include/stxxl/bits/containers/queue.h    | 11 ++++++++
 include/stxxl/bits/containers/sequence.h | 13 ++++++++++
 include/stxxl/bits/containers/stack.h    | 33 ++++++------------------
 include/stxxl/bits/mng/read_write_pool.h |  9 +++++++
 include/stxxl/bits/mng/write_pool.h      | 20 ++++++++++++++
 5 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/include/stxxl/bits/containers/queue.h b/include/stxxl/bits/containers/queue.h
index c164c6b..13b1547 100644
--- a/include/stxxl/bits/containers/queue.h
+++ b/include/stxxl/bits/containers/queue.h
@@ -388,6 +388,17 @@ public:
         {
             delete pool;
         }
+        else
+        {
+            // the shared pool lives on: the blocks must not be given back
+            // while it still reads or writes them
+            for (typename std::deque<bid_type>::const_iterator it = bids.begin();
+                 it != bids.end(); ++it)
+            {
+                try { pool->discard(*it); }
+                catch (const io_error&) { }
+            }
+        }
 
         if (!bids.empty())
             bm->delete_blocks(bids.begin(), bids.end());
diff --git a/include/stxxl/bits/containers/sequence.h b/include/stxxl/bits/containers/sequence.h
index 2d1717f..973b753 100644
--- a/include/stxxl/bits/containers/sequence.h
+++ b/include/stxxl/bits/containers/sequence.h
@@ -553,7 +553,20 @@ public:
         m_pool->add(m_front_block);
 
         if (m_owns_pool)
+        {
             delete m_pool;
+        }
+        else
+        {
+            // the shared pool lives on: the blocks must not be given back
+            // while it still reads or writes them
+            for (typename bid_deque_type::const_iterator it = m_bids.begin();
+                 it != m_bids.end(); ++it)
+            {
+                try { m_pool->discard(*it); }
+                catch (const io_error&) { }
+            }
+        }
 
         if (!m_bids.empty())
             m_bm->delete_blocks(m_bids.begin(), m_bids.end());
diff --git a/include/stxxl/bits/containers/stack.h b/include/stxxl/bits/containers/stack.h
index 76091fa..71ac560 100644
--- a/include/stxxl/bits/containers/stack.h
+++ b/include/stxxl/bits/containers/stack.h
@@ -634,33 +634,16 @@ public:
 
     virtual ~grow_shrink_stack2()
     {
-        try
+        STXXL_VERBOSE2("grow_shrink_stack2::~grow_shrink_stack2()");
+        // the pool may live on: the blocks must not be given back while it
+        // still reads or writes them
+        for (typename std::vector<bid_type>::const_iterator cur = bids.begin();
+             cur != bids.end(); ++cur)
         {
-            STXXL_VERBOSE2("grow_shrink_stack2::~grow_shrink_stack2()");
-            const int_type bids_size = bids.size();
-            const int_type last_pref = STXXL_MAX(int_type(bids_size) - int_type(pref_aggr), (int_type)0);
-            int_type i;
-            for (i = bids_size - 1; i >= last_pref; --i)
-            {
-                // clean the prefetch buffer
-                pool->invalidate(bids[i]);
-            }
-            typename std::vector<bid_type>::iterator cur = bids.begin();
-            typename std::vector<bid_type>::const_iterator end = bids.end();
-            for ( ; cur != end; ++cur)
-            {
-                // FIXME: read_write_pool needs something like cancel_write(bid)
-                block_type* b = NULL;   // w_pool.steal(*cur);
-                if (b)
-                {
-                    pool->add(cache);   // return buffer
-                    cache = b;
-                }
-            }
-            delete cache;
+            try { pool->discard(*cur); }
+            catch (const io_error&) { }
         }
-        catch (const io_error&)
-        { }
+        delete cache;
         block_manager::get_instance()->delete_blocks(bids.begin(), bids.end());
         delete owned_pool;
     }
diff --git a/include/stxxl/bits/mng/read_write_pool.h b/include/stxxl/bits/mng/read_write_pool.h
index 35f4ee9..0a3cca1 100644
--- a/include/stxxl/bits/mng/read_write_pool.h
+++ b/include/stxxl/bits/mng/read_write_pool.h
@@ -145,6 +145,15 @@ public:
         return p_pool->invalidate(bid);
     }
 
+    //! Drop all requests for a block that is going to be deleted: when this
+    //! function returns the pool neither reads nor writes the block any more,
+    //! hence it can be given back to the block_manager.
+    void discard(bid_type bid)
+    {
+        p_pool->invalidate(bid);
+        w_pool->discard(bid);
+    }
+
     /*!
      * Reads block. If this block is cached block is not read but passed from
      * the cache.
diff --git a/include/stxxl/bits/mng/write_pool.h b/include/stxxl/bits/mng/write_pool.h
index 7f60c69..a7677f7 100644
--- a/include/stxxl/bits/mng/write_pool.h
+++ b/include/stxxl/bits/mng/write_pool.h
@@ -244,6 +244,26 @@ public:
         return std::pair<block_type*, request_ptr>((block_type*)NULL, request_ptr());
     }
 
+    //! Drops the pending write of a block that is going to be deleted: when
+    //! this function returns no write to \c bid is in flight any more.
+    //! \return \c true if there was such a write
+    bool discard(bid_type bid)
+    {
+        for (busy_blocks_iterator i2 = busy_blocks.begin(); i2 != busy_blocks.end(); ++i2)
+        {
+            if (i2->bid == bid)
+            {
+                request_ptr req = i2->req;
+                free_blocks.push_back(i2->block);
+                busy_blocks.erase(i2);
+                if (!req->cancel())
+                    req->wait();
+                return true;
+            }
+        }
+        return false;
+    }
+
     void add(block_type*& block)
     {
         STXXL_VERBOSE_WPOOL("::add " << block);
-- 
2.43.0


From 61effb793a721bd0fc02f91b32d67a329d5d0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 22/83] fix: node_cache::swap() did not swap the dirty flags
 (changes lost after swapping maps)

---
 include/stxxl/bits/containers/btree/node_cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/btree/node_cache.h b/include/stxxl/bits/containers/btree/node_cache.h
index 69cbfd3..4377eae 100644
--- a/include/stxxl/bits/containers/btree/node_cache.h
+++ b/include/stxxl/bits/containers/btree/node_cache.h
@@ -565,12 +565,13 @@ public:
         change_btree_pointers(m_btree);
         obj.change_btree_pointers(obj.m_btree);
         std::swap(m_fixed, obj.m_fixed);
+        std::swap(m_dirty, obj.m_dirty);
         std::swap(m_free_nodes, obj.m_free_nodes);
         std::swap(m_bid2node, obj.m_bid2node);
         std::swap(m_pager, obj.m_pager);
         std::swap(m_alloc_strategy, obj.m_alloc_strategy);
         std::swap(n_found, obj.n_found);
-        std::swap(n_not_found, obj.n_found);
+        std::swap(n_not_found, obj.n_not_found);
         std::swap(n_created, obj.n_created);
         std::swap(n_deleted, obj.n_deleted);
         std::swap(n_read, obj.n_read);
-- 
2.43.0


From 42f9aa083fbc8eb2a9860ce3f6dc1751da437b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 23/83] fix: unordered_map operations on a map that has no
 buckets

Every operation except insert() indexed the empty bucket array of a default
constructed map, and rebuilding with an (estimated) number of values of zero
dropped all buckets and the values in them.
---
 .../stxxl/bits/containers/hash_map/hash_map.h | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 0759bd2..fb8bea3 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -309,8 +309,7 @@ public:
      */
     std::pair<iterator, bool> insert(const value_type& value)
     {
-        if (buckets_.size() == 0)
-            _rebuild_buckets(128);
+        _need_buckets();
 
         internal_size_type i_bucket = _bkt_num(value.first);
         bucket_type& bucket = buckets_[i_bucket];
@@ -373,6 +372,8 @@ public:
     //! \return iterator pointing to the inserted value
     iterator insert_oblivious(const value_type& value)
     {
+        _need_buckets();
+
         internal_size_type i_bucket = _bkt_num(value.first);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, value.first);
@@ -451,6 +452,8 @@ public:
     //! \return number of values actually erased (0 or 1)
     external_size_type erase(const key_type& key)
     {
+        _need_buckets();
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -505,6 +508,8 @@ public:
     //! \param key key for value to release
     void erase_oblivious(const key_type& key)
     {
+        _need_buckets();
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -623,6 +628,7 @@ public:
     {
         if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
             _rebuild_buckets();
+        _need_buckets();
 
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
@@ -678,6 +684,9 @@ public:
     //! \param key key for value to look up
     const_iterator find(const key_type& key) const
     {
+        if (buckets_.size() == 0)
+            return this->_end<const_iterator>();
+
         internal_size_type i_bucket = _bkt_num(key);
         const bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -744,6 +753,7 @@ public:
     {
         if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
             _rebuild_buckets();
+        _need_buckets();
 
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
@@ -1107,6 +1117,13 @@ protected:
         }
     };
 
+    //! Create initial buckets if there are none yet.
+    void _need_buckets()
+    {
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+    }
+
     /*  Rebuild hash-map. The desired number of buckets may be supplied. */
     void _rebuild_buckets(internal_size_type n_desired = 0)
     {
@@ -1121,6 +1138,9 @@ protected:
         // determine new number of buckets from desired load_factor ...
         internal_size_type n_new;
         n_new = (internal_size_type)ceil((double)num_total_ / ((double)subblock_size * (double)opt_load_factor()));
+        // (num_total_ may be an estimate, but there always has to be a bucket)
+        if (n_new == 0)
+            n_new = 1;
 
         // ... but give the user the chance to request even more buckets
         if (n_desired > n_new)
@@ -1322,6 +1342,8 @@ public:
         external_size_type n_buckets_new = (external_size_type)ceil((double)num_total_new / ((double)subblock_size * (double)opt_load_factor()));
         if (n_buckets_new > max_bucket_count())
             n_buckets_new = max_bucket_count();
+        if (n_buckets_new == 0)
+            n_buckets_new = 1;
 
         STXXL_VERBOSE_HASH_MAP("insert() items=" << (l - f) << " buckets_new=" << n_buckets_new);
 
-- 
2.43.0


From 9d03aaeb3d714856696eeabfb0e3fa43324bab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 24/83] fix: unordered_map::operator[] counts new elements and
 fixes iterators

An element created by operator[] was not counted, so that size() and the
number of buckets chosen when rebuilding were wrong, and iterators to an
element pulled into internal memory went on to refer to the external copy.
---
 include/stxxl/bits/containers/hash_map/hash_map.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index fb8bea3..8220b9e 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -776,10 +776,10 @@ public:
             external_size_type i_external = result.first;
             value_type found_value = result.second;
 
+            bool found = (i_external < bucket.n_external_ && _eq(found_value.first, key));
+
             value_type buffer_value =
-                (i_external < bucket.n_external_ && _eq(found_value.first, key))
-                ? found_value
-                : value_type(key, mapped_type());
+                found ? found_value : value_type(key, mapped_type());
 
             // add a new node to the buffer. this new node's value overwrites
             // the external value if it was found and otherwise is set to (key,
@@ -789,6 +789,11 @@ public:
                 ? node->set_next(_new_node(buffer_value, node->next(), false))
                 : (bucket.list_ = _new_node(buffer_value, bucket.list_, false));
 
+            if (found) // iterators may refer to the external value
+                iterator_map_.fix_iterators_2int(i_bucket, key, new_node);
+            else
+                ++num_total_;
+
             ++buffer_size_;
             // note that we already checked the buffer-size in (*)
 
-- 
2.43.0


From 02acbe3ecbb3702ca8984cab0340f99c581a3ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 25/83] fix: unordered_map bucket index out of range for the
 largest hash values

A hash value that converts to the same double as the maximum was assigned the
bucket one past the last.
---
 include/stxxl/bits/containers/hash_map/hash_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 8220b9e..82ea3bc 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -954,9 +954,11 @@ protected:
     {
         //! TODO maybe specialize double arithmetic to integer. the old code
         //! was faulty -tb.
-        return (internal_size_type)(
+        internal_size_type i_bucket = (internal_size_type)(
             (double)n * ((double)hash_(key) / (double)std::numeric_limits<internal_size_type>::max())
             );
+        // the largest hash values are rounded up to the maximum
+        return (i_bucket < n) ? i_bucket : n - 1;
     }
 
     /*!
-- 
2.43.0


From 15629a4db5c44e7859b894a811cebc57516c0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 26/83] fix: unordered_map's estimated size must not wrap
 around below zero

After erase_oblivious() of keys that do not exist the estimate went below
zero, and the next rebuild asked for an absurd number of buckets.
---
 .../stxxl/bits/containers/hash_map/hash_map.h  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 82ea3bc..4deda6d 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -420,7 +420,7 @@ public:
     //! \param it iterator pointing to the value to erase
     void erase(const_iterator it)
     {
-        --num_total_;
+        _decrease_total();
         bucket_type& bucket = buckets_[it.i_bucket_];
 
         if (it.source_ == src_internal)
@@ -464,7 +464,7 @@ public:
             if (!node->deleted())
             {
                 node->set_deleted(true);
-                --num_total_;
+                _decrease_total();
                 iterator_map_.fix_iterators_2end(i_bucket, key);
                 return 1;
             }
@@ -483,7 +483,7 @@ public:
             // found in external memory; add delete-node
             if (i_external < bucket.n_external_ && _eq(ext_value.first, key))
             {
-                --num_total_;
+                _decrease_total();
 
                 if (node)
                     node->set_next(_new_node(value_type(key, mapped_type()), node->next(), true));
@@ -519,7 +519,7 @@ public:
         {
             if (!node->deleted())
             {
-                --num_total_;
+                _decrease_total();
                 node->set_deleted(true);
                 iterator_map_.fix_iterators_2end(i_bucket, key);
             }
@@ -528,7 +528,7 @@ public:
         else
         {
             oblivious_ = true;
-            --num_total_;
+            _decrease_total();
 
             if (node)
                 node->set_next(_new_node(value_type(key, mapped_type()), node->next(), true));
@@ -1124,6 +1124,14 @@ protected:
         }
     };
 
+    //! Count an erased value. After *_oblivious-methods num_total_ is only an
+    //! estimate, which may already be zero.
+    void _decrease_total()
+    {
+        if (num_total_ > 0)
+            --num_total_;
+    }
+
     //! Create initial buckets if there are none yet.
     void _need_buckets()
     {
-- 
2.43.0


From 548b5c63b804ec746e24a82f234431e74cf96af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:11 +0000
Subject: [PATCH 27/83] fix: unordered_map::equal_range() returned an empty
 range for a present key

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 4deda6d..f27e6db 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -734,8 +734,10 @@ public:
     //! \return range may be empty or contains exactly one value
     std::pair<iterator, iterator> equal_range(const key_type& key)
     {
-        iterator it = find(key);
-        return std::pair<iterator, iterator>(it, it);
+        iterator it = find(key), it_end = it;
+        if (it_end != end())
+            ++it_end;
+        return std::pair<iterator, iterator>(it, it_end);
     }
 
     //! Finds a range containing all values with given key. Const access
@@ -743,8 +745,10 @@ public:
     //! \return range may be empty or contains exactly one value
     std::pair<const_iterator, const_iterator> equal_range(const key_type& key) const
     {
-        const_iterator cit = find(key);
-        return std::pair<const_iterator, const_iterator>(cit, cit);
+        const_iterator cit = find(key), cit_end = cit;
+        if (cit_end != end())
+            ++cit_end;
+        return std::pair<const_iterator, const_iterator>(cit, cit_end);
     }
 
     //! Convenience operator to quickly insert or find values. Use with caution
-- 
2.43.0


From 0b44e97ade4bc9dc8a92c79ff093f657eea1b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 28/83] fix: unordered_map bulk insertion dropped keys with
 equal hash values

UniqueValueStream compared the hash values instead of the keys, so that of
several different keys with the same hash value only one was inserted.
---
 include/stxxl/bits/containers/hash_map/hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index f27e6db..1605d80 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -1257,7 +1257,7 @@ protected:
         {
             value_type v_old = *in_;
             ++in_;
-            while (!in_.empty() && v_old.first == (*in_).first)
+            while (!in_.empty() && map_._eq(v_old.second.first, (*in_).second.first))
                 ++in_;
         }
     };
-- 
2.43.0


From 3a39d0e291c6cc4a9f482a3c0d99c5ad76c99684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 29/83] fix: unordered_map's readers release only cache blocks
 they retain themselves

buffered_reader retained the next block before it was cached (without effect)
and released its first block without having retained it, which took away the
reference of another reader of that block. A block in use could thus be kicked
out of the cache: iterators then read and wrote the contents of another block.
---
 include/stxxl/bits/containers/hash_map/util.h | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/util.h b/include/stxxl/bits/containers/hash_map/util.h
index ff31eb6..f6c0b5f 100644
--- a/include/stxxl/bits/containers/hash_map/util.h
+++ b/include/stxxl/bits/containers/hash_map/util.h
@@ -130,6 +130,8 @@ private:
 
     //! current block dirty ?
     bool dirty_;
+    //! current block retained in the cache by this reader?
+    bool retained_;
     //! current subblock
     subblock_type* subblock_;
 
@@ -152,6 +154,7 @@ public:
           page_size_(tuning::get_instance()->prefetch_page_size),
           prefetch_pages_(tuning::get_instance()->prefetch_pages),
           dirty_(false),
+          retained_(false),
           subblock_(NULL)
     {
         if (seq_begin == seq_end)
@@ -166,8 +169,7 @@ public:
 
     ~buffered_reader()
     {
-        if (curr_bid_ != end_bid_)
-            cache_.release_block(*curr_bid_);
+        release_current();
     }
 
     void enable_prefetching()
@@ -221,7 +223,7 @@ public:
         // entered new block
         else
         {
-            cache_.release_block(*curr_bid_);
+            release_current();
 
             i_value_ = 0;
             dirty_ = false;
@@ -230,7 +232,7 @@ public:
             if (curr_bid_ == end_bid_)
                 return false;
 
-            cache_.retain_block(*curr_bid_);
+            load_subblock(0);
 
             // if a complete page has been consumed, prefetch the next one
             if (prefetch_ && (curr_bid_ - begin_bid_) % page_size_ == 0)
@@ -245,11 +247,9 @@ public:
             }
         }
 
-        // entered new subblock
-        if (i_value_ % subblock_size == 0)
-        {
-            subblock_ = cache_.get_subblock(*curr_bid_, i_value_ / subblock_size);
-        }
+        // entered new subblock (the first one of a block is already loaded)
+        if (i_value_ != 0 && i_value_ % subblock_size == 0)
+            load_subblock(i_value_ / subblock_size);
 
         return true;
     }
@@ -270,7 +270,7 @@ public:
         if (bid != curr_bid_)
             dirty_ = false;
 
-        cache_.release_block(*curr_bid_);
+        release_current();
 
         if (bid == end_bid_)
             return;
@@ -292,8 +292,24 @@ public:
         }
         // skip to subblock
         i_value_ = i_subblock * subblock_size;
+        load_subblock(i_subblock);
+    }
+
+private:
+    //! Load a subblock of the current block and keep the block in the cache.
+    void load_subblock(unsigned_type i_subblock)
+    {
         subblock_ = cache_.get_subblock(*curr_bid_, i_subblock);
-        cache_.retain_block(*curr_bid_);
+        if (!retained_)
+            retained_ = cache_.retain_block(*curr_bid_);
+    }
+
+    //! Release the current block if (and only if) this reader retains it.
+    void release_current()
+    {
+        if (retained_)
+            cache_.release_block(*curr_bid_);
+        retained_ = false;
     }
 };
 
-- 
2.43.0


From f1b9601b942eb77a715f37d508e6e630aa0f761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 30/83] fix: unordered_map::begin() may start behind the first
 node to come

The iterator's node was set to the first buffered node even if that is greater
than the first external value. A value buffered in between later was missed by
the iterator, which delivered the outdated external one.
---
 include/stxxl/bits/containers/hash_map/hash_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 1605d80..afb3c00 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -871,8 +871,9 @@ protected:
         if (buckets_.size() == 0)
             return _end<Iterator>();
 
-        // correct key will be set by find_next()
-        Iterator it(non_const_this, 0, buckets_[0].list_,
+        // correct key and node will be set by find_next(); the first node may
+        // be greater than the first (external) value
+        Iterator it(non_const_this, 0, NULL,
                     0, src_unknown, true, key_type());
         it.find_next();
 
-- 
2.43.0


From 1807f20034787e8073836ff8edff4b54383efebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 31/83] fix: swapping two unordered_maps left live iterators
 with the wrong map

iterator_map::swap() also exchanged the pointers to the maps the two
iterator_maps belong to, so that iterators were set to the map that no longer
had their elements, and their readers went on to use the other block cache.
---
 .../stxxl/bits/containers/hash_map/iterator_map.h   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/iterator_map.h b/include/stxxl/bits/containers/hash_map/iterator_map.h
index 57555b3..5fcc1aa 100644
--- a/include/stxxl/bits/containers/hash_map/iterator_map.h
+++ b/include/stxxl/bits/containers/hash_map/iterator_map.h
@@ -233,11 +233,22 @@ private:
             ((*it).second)->map_ = map;
     }
 
+    // drop the readers of all contained iterators
+    void reset_readers()
+    {
+        for (mmiterator_type it = it_map_.begin(); it != it_map_.end(); ++it)
+            ((*it).second)->reset_reader();
+    }
+
 public:
     void swap(iterator_map<HashMap>& obj)
     {
+        // readers refer to the block cache of the map they were created for
+        reset_readers();
+        obj.reset_readers();
+
+        // map_ remains: it is the map this iterator_map is a member of
         std::swap(it_map_, obj.it_map_);
-        std::swap(map_, obj.map_);
 
         change_hash_map_pointers(map_);
         obj.change_hash_map_pointers(obj.map_);
-- 
2.43.0


From b827dd58ffbdc448dd948fbf15b1ed5472cb53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 32/83] fix: unordered_map's block cache re-read blocks whose
 write was still queued

A modified block kicked out of the cache is written asynchronously. When it was
needed again soon, its read could overtake that write and the modification was
lost. clear() did not wait for such writes either, although the blocks are
deleted next and may belong to somebody else when the write is done.
---
 .../bits/containers/hash_map/block_cache.h    | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 03663d9..4220079 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -41,6 +41,7 @@ public:
 protected:
     std::vector<block_type*> blocks_;
     std::vector<request_ptr> reqs_;
+    std::vector<bid_type> bids_;
     std::vector<unsigned_type> free_blocks_;
     std::list<unsigned_type> busy_blocks_; // TODO make that a circular-buffer
 
@@ -50,6 +51,7 @@ public:
         blocks_.reserve(size);
         free_blocks_.reserve(size);
         reqs_.resize(size);
+        bids_.resize(size);
 
         for (unsigned_type i = 0; i < size; i++) {
             blocks_.push_back(new block_type());
@@ -76,12 +78,26 @@ public:
         block_type* buffer = blocks_[i_buffer];
 
         blocks_[i_buffer] = write_block;
+        bids_[i_buffer] = bid;
         reqs_[i_buffer] = blocks_[i_buffer]->write(bid);
         busy_blocks_.push_back(i_buffer);
 
         return buffer;
     }
 
+    //! Wait until a pending write of the given block (if any) is finished;
+    //! required before reading it again.
+    void wait_for(const bid_type& bid)
+    {
+        for (std::list<unsigned_type>::const_iterator i = busy_blocks_.begin();
+             i != busy_blocks_.end(); ++i)
+        {
+            if (bids_[*i].storage == bid.storage && bids_[*i].offset == bid.offset &&
+                reqs_[*i].valid())
+                reqs_[*i]->wait();
+        }
+    }
+
     void flush()
     {
         while (!busy_blocks_.empty()) {
@@ -100,6 +116,7 @@ public:
     {
         std::swap(blocks_, obj.blocks_);
         std::swap(reqs_, obj.reqs_);
+        std::swap(bids_, obj.bids_);
         std::swap(free_blocks_, obj.free_blocks_);
         std::swap(busy_blocks_, obj.busy_blocks_);
     }
@@ -405,6 +422,7 @@ public:
 
             if (free_blocks_.empty())
                 kick_block();
+            write_buffer_.wait_for(bid);
 
             i_block = free_blocks_.back(), free_blocks_.pop_back();
             block = blocks_[i_block];
@@ -453,6 +471,7 @@ public:
         else {
             if (free_blocks_.empty())
                 kick_block();
+            write_buffer_.wait_for(bid);
 
             i_block = free_blocks_.back(), free_blocks_.pop_back();
 
@@ -486,9 +505,11 @@ public:
         write_buffer_.flush();
     }
 
-    //! Empty cache; don't write back dirty blocks
+    //! Empty cache; don't write back dirty blocks, but finish writes already
+    //! begun (the caller may delete the blocks next).
     void clear()
     {
+        write_buffer_.flush();
         free_blocks_.clear();
         for (unsigned_type i = 0; i < size(); i++)
         {
-- 
2.43.0


From 5fb360a9ab262c290b33dddeec4205d3960c63d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 33/83] fix: priority_queue overflowed the arity of its first
 merger and gave blocks back while its pool still used them

---
 include/stxxl/bits/containers/pq_ext_merger.h |  8 +++++
 .../stxxl/bits/containers/priority_queue.h    | 31 +++++++++++++------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/include/stxxl/bits/containers/pq_ext_merger.h b/include/stxxl/bits/containers/pq_ext_merger.h
index f4e37a8..cc45c6c 100644
--- a/include/stxxl/bits/containers/pq_ext_merger.h
+++ b/include/stxxl/bits/containers/pq_ext_merger.h
@@ -94,6 +94,14 @@ public:
         {
             STXXL_VERBOSE2("ext_merger sequence_state::~sequence_state()");
 
+            // the pool may live on: the blocks must not be given back while it
+            // still reads or writes them
+            for (typename bid_container_type::const_iterator it = bids.begin();
+                 it != bids.end(); ++it)
+            {
+                try { merger->pool->discard(*it); }
+                catch (const io_error&) { }
+            }
             block_manager* bm = block_manager::get_instance();
             bm->delete_blocks(bids.begin(), bids.end());
         }
diff --git a/include/stxxl/bits/containers/priority_queue.h b/include/stxxl/bits/containers/priority_queue.h
index 9bead59..3fd2547 100644
--- a/include/stxxl/bits/containers/priority_queue.h
+++ b/include/stxxl/bits/containers/priority_queue.h
@@ -436,12 +436,14 @@ template <class ConfigType>
 priority_queue<ConfigType>::~priority_queue()
 {
     STXXL_VERBOSE_PQ("~priority_queue()");
-    if (pool_owned)
-        delete pool;
-
+    // the mergers give their blocks back and must keep the pool from accessing
+    // them afterwards
     for (unsigned_type j = 0; j < num_ext_groups; ++j)
         delete ext_mergers[j];
     delete[] ext_mergers;
+
+    if (pool_owned)
+        delete pool;
 }
 
 //--------------------- Buffer refilling -------------------------------
@@ -804,16 +806,25 @@ void priority_queue<ConfigType>::empty_insert_heap()
     // by inserting them into tree 0 (which is almost empty in this case)
     if (freeLevel > 0)
     {
-        for (int_type i = freeLevel; i >= 0; i--)
-        {
-            // reverse order not needed
-            // but would allow immediate refill
+        // merge them into one sequence, as the arity of tree 0 may be too small
+        // to hold one more sequence per buffer
+        priority_queue_local::invert_order<typename Config::comparator_type, value_type, value_type> inv_cmp(cmp);
 
-            newSegment = new value_type[current_group_buffer_size(i) + 1]; // with sentinel
-            std::copy(group_buffer_current_mins[i], group_buffer_current_mins[i] + current_group_buffer_size(i) + 1, newSegment);
-            int_mergers[0].append_array(newSegment, current_group_buffer_size(i));
+        unsigned_type length = 0;
+        for (unsigned_type i = 0; i <= freeLevel; i++)
+            length += current_group_buffer_size(i);
+
+        newSegment = new value_type[length + 1]; // with sentinel
+        newPos = newSegment;
+        for (unsigned_type i = 0; i <= freeLevel; i++)
+        {
+            value_type* middle = newPos;
+            newPos = std::copy(group_buffer_current_mins[i], group_buffers[i] + N, newPos);
+            std::inplace_merge(newSegment, middle, newPos, inv_cmp);
             group_buffer_current_mins[i] = group_buffers[i] + N;           // empty
         }
+        *newPos = sup;
+        int_mergers[0].append_array(newSegment, length);
     }
 
     // update size
-- 
2.43.0


From 33fc1fdab47e4926c68a5671b625b4ce054b0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 34/83] fix: multiseq_partition split equal elements against
 the order of the sequences

---
 include/stxxl/bits/parallel/multiseq_selection.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiseq_selection.h b/include/stxxl/bits/parallel/multiseq_selection.h
index 57e7599..a5ef39c 100644
--- a/include/stxxl/bits/parallel/multiseq_selection.h
+++ b/include/stxxl/bits/parallel/multiseq_selection.h
@@ -204,17 +204,16 @@ void multiseq_partition(
         n /= 2;
 
         const value_type* lmax = NULL; // impossible to avoid the warning?
+        diff_type lmax_seq = -1;
         for (diff_type i = 0; i < m; ++i)
         {
             if (a[i] > 0)
             {
-                if (!lmax)
-                    lmax = &(S(i)[a[i] - 1]);
-                else
+                // max, favor rear sequences
+                if (!lmax || !comp(S(i)[a[i] - 1], *lmax))
                 {
-                    // max, favor rear sequences
-                    if (!comp(S(i)[a[i] - 1], *lmax))
-                        lmax = &(S(i)[a[i] - 1]);
+                    lmax = &(S(i)[a[i] - 1]);
+                    lmax_seq = i;
                 }
             }
         }
@@ -222,7 +221,9 @@ void multiseq_partition(
         for (diff_type i = 0; i < m; ++i)
         {
             diff_type middle = (b[i] + a[i]) / 2;
-            if (lmax && middle < seqlen[i] && comp(S(i)[middle], *lmax))
+            // equal elements are ordered by sequence
+            if (lmax && middle < seqlen[i] &&
+                lcomp(sample_pair(S(i)[middle], i), sample_pair(*lmax, lmax_seq)))
                 a[i] = std::min(a[i] + n + 1, seqlen[i]);
             else
                 b[i] -= n + 1;
-- 
2.43.0


From 4a26fbdeaeff3e82e51f958964c9e216fd3a0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 35/83] fix: stable unguarded loser trees compared wrongly and
 could yield their padding

---
 include/stxxl/bits/parallel/losertree.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/parallel/losertree.h b/include/stxxl/bits/parallel/losertree.h
index 218f8dd..8526408 100644
--- a/include/stxxl/bits/parallel/losertree.h
+++ b/include/stxxl/bits/parallel/losertree.h
@@ -874,7 +874,9 @@ public:
         int source = losers[0].source;
         for (unsigned int pos = (k + source) / 2; pos > 0; pos /= 2)
         {
-            if (!comp(key, losers[pos].key) && losers[pos].source < source)
+            // the padding (source -1) comes after all equal elements
+            if (comp(losers[pos].key, key) ||
+                (!comp(key, losers[pos].key) && (unsigned int)losers[pos].source < (unsigned int)source))
             {
                 // the other one is smaller
                 swap(losers[pos].source, source);
@@ -1052,9 +1054,10 @@ public:
         int source = losers[0].source;
         for (unsigned int pos = (k + source) / 2; pos > 0; pos /= 2)
         {
-            //the smaller one gets promoted, ties are broken by source
+            //the smaller one gets promoted, ties are broken by source,
+            //the padding (source -1) comes after all equal elements
             if (comp(*losers[pos].keyp, *keyp) ||
-                (!comp(*keyp, *losers[pos].keyp) && losers[pos].source < source))
+                (!comp(*keyp, *losers[pos].keyp) && (unsigned int)losers[pos].source < (unsigned int)source))
             {
                 //the other one is smaller
                 swap(losers[pos].source, source);
-- 
2.43.0


From 23e765bc1a8c17b23378a47068e44a88671850f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 36/83] fix: parallel_sort_mwms with fewer threads than
 requested, samples beyond a chunk

---
 .../stxxl/bits/parallel/multiway_mergesort.h  | 83 ++++++++++++-------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_mergesort.h b/include/stxxl/bits/parallel/multiway_mergesort.h
index 1f9e6cc..9388444 100644
--- a/include/stxxl/bits/parallel/multiway_mergesort.h
+++ b/include/stxxl/bits/parallel/multiway_mergesort.h
@@ -118,8 +118,11 @@ inline void determine_samples(PMWMSSorterPU<RandomAccessIterator>* d,
     equally_split(sd->starts[d->iam + 1] - sd->starts[d->iam],
                   (thread_index_t)(num_samples + 1), es.begin());
 
+    // the last parts may be empty and then start at the end of the chunk
+    const DiffType last = sd->starts[d->iam + 1] - sd->starts[d->iam] - 1;
+
     for (DiffType i = 0; i < num_samples; i++)
-        sd->samples[d->iam * num_samples + i] = sd->source[sd->starts[d->iam] + es[i + 1]];
+        sd->samples[d->iam * num_samples + i] = sd->source[sd->starts[d->iam] + std::min(es[i + 1], last)];
 }
 
 /*!
@@ -290,7 +293,13 @@ inline void parallel_sort_mwms_pu(PMWMSSorterPU<RandomAccessIterator>* d,
     std::copy(sd->merging_places[iam], sd->merging_places[iam] + length_am, sd->source + offset);
 #endif
 
-    delete sd->temporaries[iam];
+#if STXXL_MULTIWAY_MERGESORT_COPY_LAST
+    delete[] sd->temporaries[iam];
+#else
+    for (DiffType i = 0; i < length_local; ++i)
+        sd->temporaries[iam][i].~ValueType();
+    ::operator delete (sd->temporaries[iam]);
+#endif
 
     t.tic("copy back");
 
@@ -329,41 +338,51 @@ parallel_sort_mwms(RandomAccessIterator begin,
         num_threads = static_cast<thread_index_t>(n);
 
     PMWMSSortingData<RandomAccessIterator> sd;
+    PMWMSSorterPU<RandomAccessIterator>* pus = NULL;
+    DiffType* starts = NULL;
+
+    //now sort in parallel
+#pragma omp parallel num_threads(num_threads)
+    {
+#pragma omp single
+        {
+            // OpenMP may provide fewer threads than requested
+            num_threads = omp_get_num_threads();
 
-    sd.source = begin;
-    sd.temporaries = new ValueType*[num_threads];
+            sd.source = begin;
+            sd.temporaries = new ValueType*[num_threads];
 #if STXXL_MULTIWAY_MERGESORT_COPY_LAST
-    sd.sorting_places = new RandomAccessIterator[num_threads];
-    sd.merging_places = new ValueType*[num_threads];
+            sd.sorting_places = new RandomAccessIterator[num_threads];
+            sd.merging_places = new ValueType*[num_threads];
 #else
-    sd.sorting_places = new ValueType*[num_threads];
-    sd.merging_places = new RandomAccessIterator[num_threads];
+            sd.sorting_places = new ValueType*[num_threads];
+            sd.merging_places = new RandomAccessIterator[num_threads];
 #endif
-    if (SETTINGS::sort_splitting == SETTINGS::SAMPLING)
-        sd.samples = new ValueType[num_threads * (SETTINGS::sort_mwms_oversampling * num_threads - 1)];
-    else
-        sd.samples = NULL;
-    sd.offsets = new DiffType[num_threads - 1];
-    sd.pieces = new std::vector<PMWMSPiece<DiffType> >[num_threads];
-    for (int s = 0; s < num_threads; s++)
-        sd.pieces[s].resize(num_threads);
-    PMWMSSorterPU<RandomAccessIterator>* pus = new PMWMSSorterPU<RandomAccessIterator>[num_threads];
-    DiffType* starts = sd.starts = new DiffType[num_threads + 1];
-
-    DiffType chunk_length = n / num_threads, split = n % num_threads, start = 0;
-    for (int i = 0; i < num_threads; i++)
-    {
-        starts[i] = start;
-        start += (i < split) ? (chunk_length + 1) : chunk_length;
-        pus[i].num_threads = num_threads;
-        pus[i].iam = i;
-        pus[i].sd = &sd;
-    }
-    starts[num_threads] = start;
+            if (SETTINGS::sort_splitting == SETTINGS::SAMPLING)
+                sd.samples = new ValueType[num_threads * (SETTINGS::sort_mwms_oversampling * num_threads - 1)];
+            else
+                sd.samples = NULL;
+            sd.offsets = new DiffType[num_threads - 1];
+            sd.pieces = new std::vector<PMWMSPiece<DiffType> >[num_threads];
+            for (int s = 0; s < num_threads; s++)
+                sd.pieces[s].resize(num_threads);
+            pus = new PMWMSSorterPU<RandomAccessIterator>[num_threads];
+            starts = sd.starts = new DiffType[num_threads + 1];
+
+            DiffType chunk_length = n / num_threads, split = n % num_threads, start = 0;
+            for (int i = 0; i < num_threads; i++)
+            {
+                starts[i] = start;
+                start += (i < split) ? (chunk_length + 1) : chunk_length;
+                pus[i].num_threads = num_threads;
+                pus[i].iam = i;
+                pus[i].sd = &sd;
+            }
+            starts[num_threads] = start;
+        }
 
-    //now sort in parallel
-#pragma omp parallel num_threads(num_threads)
-    parallel_sort_mwms_pu<Stable>(&(pus[omp_get_thread_num()]), comp);
+        parallel_sort_mwms_pu<Stable>(&(pus[omp_get_thread_num()]), comp);
+    }
 
     delete[] starts;
     delete[] sd.temporaries;
-- 
2.43.0


From 58d648a159261b31024e440332c93c902207f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 37/83] fix: parallel_multiway_merge with fewer threads than
 requested or only a prefix, empty input, reads past the end

---
 include/stxxl/bits/parallel/multiway_merge.h | 58 ++++++++++++--------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 0608554..681ffac 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -615,11 +615,11 @@ multiway_merge_4_variant(RandomAccessIteratorIterator seqs_begin,
 
 #define STXXL_MERGE4CASE(a, b, c, d, c0, c1, c2)          \
     s ## a ## b ## c ## d:                                \
-    if (length == 0) goto finish;                         \
     *target = *seq ## a;                                  \
     ++target;                                             \
     --length;                                             \
     ++seq ## a;                                           \
+    if (length == 0) goto finish;                         \
     if (seq ## a c0 seq ## b) goto s ## a ## b ## c ## d; \
     if (seq ## a c1 seq ## c) goto s ## b ## a ## c ## d; \
     if (seq ## a c2 seq ## d) goto s ## b ## c ## a ## d; \
@@ -957,6 +957,10 @@ multiway_merge_loser_tree(RandomAccessIteratorIterator seqs_begin,
         total_length += iterpair_size(seqs_begin[t]);
     }
 
+    // all sequences are empty
+    if (!arbitrary_element)
+        return target;
+
     for (source_type t = 0; t < k; ++t)
     {
         if (UNLIKELY(seqs_begin[t].first == seqs_begin[t].second))
@@ -1061,6 +1065,10 @@ multiway_merge_loser_tree_unguarded(
         assert((seqs_begin[source].first != seqs_begin[source].second) || (i == length - 1));
         ++i;
 #endif
+        // the source may have run out of elements with the last one
+        if (target == target_end)
+            break;
+
         // feed
         // replace from same source
         lt.delete_min_insert(*seqs_begin[source].first);
@@ -1470,13 +1478,13 @@ parallel_multiway_merge_exact_splitting(
         offsets[s].resize(num_seqs);
         multiseq_partition(seqs_begin, seqs_end,
                            ranks[s + 1], offsets[s].begin(), comp);
+    }
 
-        if (!tight) // last one also needed and available
-        {
-            offsets[num_threads - 1].resize(num_seqs);
-            multiseq_partition(seqs_begin, seqs_end,
-                               length, offsets[num_threads - 1].begin(), comp);
-        }
+    if (!tight) // last one also needed and available
+    {
+        offsets[num_threads - 1].resize(num_seqs);
+        multiseq_partition(seqs_begin, seqs_end,
+                           length, offsets[num_threads - 1].begin(), comp);
     }
 
     // for each processor
@@ -1575,7 +1583,9 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
     {
 #pragma omp single
         {
-            if (SETTINGS::multiway_merge_splitting == SETTINGS::SAMPLING)
+            // sampling finds no split points for merging only a prefix
+            if (SETTINGS::multiway_merge_splitting == SETTINGS::SAMPLING &&
+                length == total_length)
             {
                 parallel_multiway_merge_sampling_splitting<Stable>(
                     seqs_ne.begin(), seqs_ne.end(),
@@ -1591,24 +1601,28 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
             }
         }
 
-        thread_index_t iam = omp_get_thread_num();
-        t[iam].tic();
+        // OpenMP may provide fewer threads than requested
+        for (thread_index_t iam = omp_get_thread_num();
+             iam < num_threads; iam += omp_get_num_threads())
+        {
+            t[iam].tic();
 
-        DiffType target_position = 0, local_length = 0;
+            DiffType target_position = 0, local_length = 0;
 
-        for (size_t s = 0; s < num_seqs; ++s)
-        {
-            target_position += chunks[iam][s].first - seqs_ne[s].first;
-            local_length += iterpair_size(chunks[iam][s]);
-        }
+            for (size_t s = 0; s < num_seqs; ++s)
+            {
+                target_position += chunks[iam][s].first - seqs_ne[s].first;
+                local_length += iterpair_size(chunks[iam][s]);
+            }
 
-        sequential_multiway_merge<Stable, false>(
-            chunks[iam].begin(), chunks[iam].end(),
-            target + target_position,
-            std::min(local_length, length - target_position),
-            comp);
+            sequential_multiway_merge<Stable, false>(
+                chunks[iam].begin(), chunks[iam].end(),
+                target + target_position,
+                std::min(local_length, length - target_position),
+                comp);
 
-        t[iam].tic();
+            t[iam].tic();
+        }
     }
 
     for (int pr = 0; pr < num_threads; ++pr)
-- 
2.43.0


From 6940fc9ea60518adb8b738ac442cc3a821345041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 38/83] fix: sort and ksort of [mid-block, block boundary)
 overwrote the BID of the block behind the range

---
 include/stxxl/bits/algo/ksort.h | 2 --
 include/stxxl/bits/algo/sort.h  | 2 --
 2 files changed, 4 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 33ec8cf..1f229e3 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -922,8 +922,6 @@ void ksort(ExtIterator first, ExtIterator last, KeyExtractor keyobj, unsigned_ty
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index 2a14fb4..e4c4873 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -879,8 +879,6 @@ void sort(ExtIterator first, ExtIterator last, StrictWeakOrdering cmp, unsigned_
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
-- 
2.43.0


From 4993da6848b20eed033f87633f17a47b38dc935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 39/83] fix: ksort divided by zero with little memory and
 shifted keys by their full width for runs of one L2 cache size

---
 include/stxxl/bits/algo/ksort.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 1f229e3..c59dbf8 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -205,9 +205,9 @@ create_runs(
     run = *runs;
     int_type run_size = (*runs)->size();
     key_type offset = 0;
-    const int log_k1 = ilog2_ceil((m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) ?
-                                  (m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) : 2);
-    const int log_k2 = ilog2_floor(m2 * Blocks1->size) - log_k1 - 1;
+    const int log_k1 = STXXL_MAX<int>(
+        ilog2_ceil(m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE), 1);
+    const int log_k2 = STXXL_MAX<int>(int(ilog2_floor(m2 * Blocks1->size)) - log_k1 - 1, 0);
     STXXL_VERBOSE("log_k1: " << log_k1 << " log_k2:" << log_k2);
     const int_type k1 = int_type(1) << log_k1;
     const int_type k2 = int_type(1) << log_k2;
@@ -548,7 +548,7 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
                                 (block_type::raw_size + block_type::size * sizeof(type_key<type, key_type>));
     STXXL_VERBOSE("Reducing number of blocks in a run from " << m2 << " to " <<
                   m2_rf << " due to key size: " << sizeof(typename KeyExtractor::key_type) << " bytes");
-    m2 = m2_rf;
+    m2 = STXXL_MAX<unsigned_type>(m2_rf, 1);
     unsigned_type full_runs = _n / m2;
     unsigned_type partial_runs = ((_n % m2) ? 1 : 0);
     unsigned_type nruns = full_runs + partial_runs;
-- 
2.43.0


From c8bfbb2ee4b52ce275e8cc3f80d816673c4710af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 40/83] fix: sort and ksort of a file-backed range starting
 inside a block left the result outside of the file

---
 include/stxxl/bits/algo/ksort.h | 4 +++-
 include/stxxl/bits/algo/sort.h  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index c59dbf8..4c3af72 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -630,7 +630,9 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
             runs_left -= runs2merge;
         }
         // allocate blocks in the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) &&
+            // the first and last block may be replaced by temporary ones
+            (!input_bids->is_managed() || !(input_bids + 1)->is_managed()))
         {
             // if we sort a file we can reuse the input bids for the output
             InputBidIterator cur = input_bids;
diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index e4c4873..109e61c 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -587,7 +587,9 @@ sort_blocks(InputBidIterator input_bids,
             runs_left -= runs2merge;
         }
         // allocate blocks for the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) &&
+            // the first and last block may be replaced by temporary ones
+            (!input_bids->is_managed() || !(input_bids + 1)->is_managed()))
         {
             // if we sort a file we can reuse the input bids for the output
             input_bid_iterator cur = input_bids;
-- 
2.43.0


From 251a150e9938a5fe4d3dca5e209e60061e0a2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 41/83] fix: stable_ksort read too few blocks of ranges ending
 inside a block and failed on empty ranges

---
 include/stxxl/bits/algo/stable_ksort.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index bd05e8a..2fc6d67 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -149,7 +149,7 @@ void distribute(
 
     int_type i = 0;
 
-    buf_istream_type in(first.bid(), last.bid() + ((first.block_offset()) ? 1 : 0),
+    buf_istream_type in(first.bid(), last.bid() + ((last.block_offset()) ? 1 : 0),
                         nread_buffers);
 
     buffered_writer<block_type> out(
@@ -230,6 +230,9 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
     typedef stable_ksort_local::bid_sequence<bid_type, alloc_strategy> bucket_bids_type;
     typedef stable_ksort_local::type_key<value_type> type_key_;
 
+    if (first == last)
+        return;
+
     first.flush();     // flush container
 
     double begin = timestamp();
-- 
2.43.0


From 595db82caf518105b7a638693c61c120ce6a34d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 42/83] fix: stable_ksort did not keep the order of records
 with equal keys

---
 include/stxxl/bits/algo/stable_ksort.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index 2fc6d67..1ebf009 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -68,13 +68,14 @@ struct type_key
 template <typename Type>
 bool operator < (const type_key<Type>& a, const type_key<Type>& b)
 {
-    return a.key < b.key;
+    // records of a bucket are referenced in input order
+    return a.key < b.key || (a.key == b.key && a.ptr < b.ptr);
 }
 
 template <typename Type>
 bool operator > (const type_key<Type>& a, const type_key<Type>& b)
 {
-    return a.key > b.key;
+    return b < a;
 }
 
 template <typename BIDType, typename AllocStrategy>
-- 
2.43.0


From 313118c53789fe2c1aa87b3187dca9e22c2f03a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 43/83] fix: stable_ksort failed on empty and small buckets and
 misplaced buckets smaller than the largest one

---
 include/stxxl/bits/algo/stable_ksort.h | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index 1ebf009..27af7a9 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -356,7 +356,6 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
         int_type* bucket1 = new int_type[k1];
 
         const unsigned int shift = (unsigned int)(sizeof(key_type) * 8 - lognbuckets);
-        const unsigned int shift1 = shift - log_k1;
 
         STXXL_VERBOSE_STABLE_KSORT("Classifying " << nbuckets << " buckets, max size:" << max_bucket_size_rec <<
                                    " block size:" << block_type::size << " log_k1:" << log_k1);
@@ -366,29 +365,24 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
             nbucket_blocks = (unsigned_type)div_ceil(bucket_sizes[k], block_type::size);
             const unsigned log_k1_k = STXXL_MAX<unsigned>(ilog2_ceil(bucket_sizes[k] * sizeof(type_key_) / STXXL_L2_SIZE), 1);
             assert(log_k1_k <= log_k1);
+            const unsigned int shift1 = shift - log_k1_k;
             k1 = (unsigned_type)(1) << log_k1_k;
             std::fill(bucket1, bucket1 + k1, 0);
 
             STXXL_VERBOSE_STABLE_KSORT("Classifying bucket " << k << " size:" << bucket_sizes[k] <<
                                        " blocks:" << nbucket_blocks << " log_k1:" << log_k1_k);
-            // classify first nbucket_blocks-1 blocks, they are full
             type_key_* ref_ptr = refs1;
             key_type offset1 = offset + (key_type(1) << key_type(shift)) * key_type(k);
-            for (i = 0; i < nbucket_blocks - 1; i++)
+            // classify the blocks, the last one might be non-full
+            unsigned_type nleft = (unsigned_type)bucket_sizes[k];
+            for (i = 0; i < nbucket_blocks; i++)
             {
+                const unsigned_type n = STXXL_MIN<unsigned_type>(nleft, block_type::size);
                 reqs1[i]->wait();
-                stable_ksort_local::classify_block(blocks1[i].begin(), blocks1[i].end(),
+                stable_ksort_local::classify_block(blocks1[i].begin(), blocks1[i].begin() + n,
                                                    ref_ptr, bucket1, offset1, shift1 /*,k1*/);
+                nleft -= n;
             }
-            // last block might be non-full
-            const unsigned_type last_block_size =
-                (unsigned_type)(bucket_sizes[k] - (nbucket_blocks - 1) * block_type::size);
-            reqs1[i]->wait();
-
-            //STXXL_MSG("block_type::size: "<<block_type::size<<" last_block_size:"<<last_block_size);
-
-            classify_block(blocks1[i].begin(), blocks1[i].begin() + last_block_size,
-                           ref_ptr, bucket1, offset1, shift1);
 
             exclusive_prefix_sum(bucket1, k1);
             classify(refs1, refs1 + bucket_sizes[k], refs2, bucket1, offset1, shift1);
@@ -400,7 +394,7 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
                 type_key_* cEnd = refs2 + bucket1[i];
                 type_key_* dEnd = refs1 + bucket1[i];
 
-                const unsigned log_k2 = ilog2_floor(bucket1[i]) - 1;        // adaptive bucket size
+                const unsigned log_k2 = STXXL_MAX<unsigned>(ilog2_floor(cEnd - c), 1) - 1;        // adaptive bucket size
                 const unsigned_type k2 = unsigned_type(1) << log_k2;
                 int_type* bucket2 = new int_type[k2];
                 const unsigned shift2 = shift1 - log_k2;
-- 
2.43.0


From 83c88cf3c6fc81a82d15ee364b42aab9c11aa4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 44/83] fix: sorter::size() counted the last run twice after
 finish()

---
 include/stxxl/bits/stream/sort_stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 062ea87..5a2f0fd 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -507,6 +507,7 @@ protected:
             STXXL_VERBOSE1("runs_creator(use_push): Small input optimization, input length: " << m_cur_el);
             m_result->small_run.assign(m_blocks1[0].begin(), m_blocks1[0].begin() + m_cur_el);
             m_result->elements = m_cur_el;
+            m_cur_el = 0;           // now counted by m_result->elements
             return;
         }
 
@@ -530,6 +531,7 @@ protected:
             m_write_reqs[i] = m_blocks1[i].write(run[i].bid);
         }
         m_result->add_run(run, m_cur_el);
+        m_cur_el = 0;               // now counted by m_result->elements
 
         for (i = 0; i < m_m2; ++i)
         {
-- 
2.43.0


From 4089c8dcd9b89db2d34d23e267848daef48e4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 45/83] fix: runs_creator<use_push> released buffers and blocks
 while they were still being written

---
 include/stxxl/bits/stream/sort_stream.h | 32 ++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 5a2f0fd..335421e 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -494,6 +494,28 @@ protected:
                                    m_cmp);
     }
 
+    //! Cancel pending writes, or wait for those already being served: both
+    //! the buffers and the blocks may be released afterwards.
+    void abandon_writes()
+    {
+        if (!m_write_reqs)
+            return;
+
+        for (unsigned_type i = 0; i < m_m2; ++i)
+        {
+            if (!m_write_reqs[i].get())
+                continue;
+            try {
+                if (!m_write_reqs[i]->cancel())
+                    m_write_reqs[i]->wait();
+            }
+            catch (const io_error&) {
+                // the data is discarded anyway
+            }
+            m_write_reqs[i] = request_ptr();
+        }
+    }
+
     void compute_result()
     {
         if (m_cur_el == 0)
@@ -573,6 +595,8 @@ public:
     //! Clear current state and remove all items.
     void clear()
     {
+        abandon_writes();
+
         if (!m_result)
             m_result = new sorted_runs_data_type;
         else
@@ -580,12 +604,6 @@ public:
 
         m_result_computed = false;
         m_cur_el = 0;
-
-        for (unsigned_type i = 0; i < m_m2; ++i)
-        {
-            if (m_write_reqs[i].get())
-                m_write_reqs[i]->cancel();
-        }
     }
 
     //! Allocates input buffers and clears result.
@@ -607,6 +625,8 @@ public:
     {
         result();       // finishes result
 
+        abandon_writes();
+
         if (m_blocks1)
         {
             delete[] ((m_blocks1 < m_blocks2) ? m_blocks1 : m_blocks2);
-- 
2.43.0


From 96b227b4c0e4272a5332ee590b26af102336db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 46/83] fix: runs_merger used again after a partial read merged
 in the wrong order or freed twice

---
 include/stxxl/bits/stream/sort_stream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 335421e..803fe45 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -1032,9 +1032,12 @@ private:
         if (m_prefetcher)
         {
             delete m_losers;
+            m_losers = NULL;
 #if STXXL_PARALLEL_MULTIWAY_MERGE
             delete seqs;
+            seqs = NULL;
             delete buffers;
+            buffers = NULL;
 #endif
             delete m_prefetcher;
             delete[] m_prefetch_seq;
@@ -1259,6 +1262,7 @@ public:
         {
 #if STXXL_PARALLEL_MULTIWAY_MERGE
 // begin of STL-style merging
+            num_currently_mergeable = 0;
             seqs = new std::vector<sequence>(nruns);
             buffers = new std::vector<block_type*>(nruns);
 
-- 
2.43.0


From 182211b9423ddea7d34b6ea773f694ef2b84237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 47/83] fix: random_shuffle failed on empty ranges

---
 include/stxxl/bits/algo/random_shuffle.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/algo/random_shuffle.h b/include/stxxl/bits/algo/random_shuffle.h
index 531f6ce..7c781c7 100644
--- a/include/stxxl/bits/algo/random_shuffle.h
+++ b/include/stxxl/bits/algo/random_shuffle.h
@@ -206,6 +206,9 @@ void random_shuffle(
 
     STXXL_VERBOSE1("random_shuffle: Vector Version");
 
+    if (first == last)
+        return;
+
     // make sure we have at least 6 blocks + 1 page
     if (M < 6 * BlockSize + PageSize * BlockSize) {
         STXXL_ERRMSG("random_shuffle: insufficient memory, " << M << " bytes supplied,");
-- 
2.43.0


From 90c5822b975c9b0dc382fc90a35a324b9a559c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 48/83] fix: copies of a vector_iterator2stream_sr deleted the
 same stream twice

---
 include/stxxl/bits/stream/stream.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/stream/stream.h b/include/stxxl/bits/stream/stream.h
index 919ad46..c3ced35 100644
--- a/include/stxxl/bits/stream/stream.h
+++ b/include/stxxl/bits/stream/stream.h
@@ -289,8 +289,8 @@ struct streamify_traits<
 template <class InputIterator>
 class vector_iterator2stream_sr
 {
-    vector_iterator2stream<InputIterator>* vec_it_stream;
-    iterator2stream<InputIterator>* it_stream;
+    mutable vector_iterator2stream<InputIterator>* vec_it_stream;
+    mutable iterator2stream<InputIterator>* it_stream;
 
     typedef typename InputIterator::block_type block_type;
 
@@ -317,9 +317,13 @@ public:
         }
     }
 
+    // transfers the stream, like vector_iterator2stream
     vector_iterator2stream_sr(const self_type& a)
         : vec_it_stream(a.vec_it_stream), it_stream(a.it_stream)
-    { }
+    {
+        a.vec_it_stream = NULL;
+        a.it_stream = NULL;
+    }
 
     //! Standard stream method.
     const value_type& operator * () const
-- 
2.43.0


From 260298b6ed5068ec0f474de979820a47c099eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 49/83] fix: for_each_m failed with a single buffer

---
 include/stxxl/bits/algo/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/scan.h b/include/stxxl/bits/algo/scan.h
index d769860..b13fce4 100644
--- a/include/stxxl/bits/algo/scan.h
+++ b/include/stxxl/bits/algo/scan.h
@@ -146,9 +146,9 @@ UnaryFunction for_each_m(ExtIterator begin, ExtIterator end,
         nbuffers = 2 * config::get_instance()->disks_number();
 
     // create prefetching stream,
-    buf_istream_type in(begin.bid(), end.bid() + ((end.block_offset()) ? 1 : 0), nbuffers / 2);
+    buf_istream_type in(begin.bid(), end.bid() + ((end.block_offset()) ? 1 : 0), STXXL_MAX<int_type>(nbuffers / 2, 1));
     // create buffered write stream for blocks
-    buf_ostream_type out(begin.bid(), nbuffers / 2);
+    buf_ostream_type out(begin.bid(), STXXL_MAX<int_type>(nbuffers / 2, 1));
     // REMARK: these two streams do I/O while
     //         functor is being computed (overlapping for free)
 
-- 
2.43.0


From 1eca6543e2dc3da65cc69703107eb4b87b895f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 50/83] fix: for_each_m on a part of a vector never written
 before lost the results

---
 include/stxxl/bits/algo/scan.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stxxl/bits/algo/scan.h b/include/stxxl/bits/algo/scan.h
index b13fce4..a78f637 100644
--- a/include/stxxl/bits/algo/scan.h
+++ b/include/stxxl/bits/algo/scan.h
@@ -183,6 +183,11 @@ UnaryFunction for_each_m(ExtIterator begin, ExtIterator end,
         }
     }
 
+    // the blocks have been written behind the vector's back, including those
+    // of pages it has never written itself
+    for (cur = begin - begin.block_offset(); cur < end; cur += ExtIterator::block_type::size)
+        cur.block_externally_updated();
+
     return functor;
 }
 
-- 
2.43.0


From 8518442d589dc9e1e3eaae1e1e64ce6c0ad6d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 51/83] fix: extract_external_block with the prefetching block
 scheduler failed when the block was in memory

---
 include/stxxl/bits/mng/block_scheduler.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 091d9d8..27549bc 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1834,6 +1834,26 @@ public:
 
         SwappableBlockType& sblock = swappable_blocks[sbid];
         wait_on_write(sbid);
+        if (sblock.is_internal())
+        {
+            // => evictable, take the internal_block away (writes the block if it is still dirty)
+            if (! scheduled_evictable_blocks.erase(sbid))
+                free_evictable_blocks.erase(sbid);
+            internal_block_type* iblock = sblock.detach_internal_block();
+            external_block_type eblock = sblock.extract_external_block();
+            if (shall_keep_internal_block(schedule_meta))
+                // => swappable_block shall keep its internal_block
+                schedule_meta->second.reserved_iblock = iblock;
+            else
+            {
+                // release internal block and give it to prefetcher
+                return_free_internal_block(iblock);
+                if (next_op_to_schedule != prediction_sequence.end())
+                    schedule_next_operations();
+            }
+            operation_done(schedule_meta);
+            return eblock;
+        }
         operation_done(schedule_meta);
         return sblock.extract_external_block();
     }
-- 
2.43.0


From d5a7d82dabf1d642642432545b44569081943520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 52/83] fix: prefetching block scheduler reused an internal
 block that was still being written

---
 include/stxxl/bits/mng/block_scheduler.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 27549bc..168650d 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1205,11 +1205,20 @@ protected:
     //! Schedule an internal, possibly dirty swappable_block to write.
     //!
     //! The block becomes not dirty. if it was dirty, an entry in write_scheduled_blocks is made referencing the write_read_request.
+    //! If it is clean but still being written, there is such an entry already.
     //! \param sbid block to write
-    //! \return pointer to the write_read_request
+    //! \return pointer to the write_read_request, NULL if there is nothing to wait for
     write_read_request * schedule_write(const swappable_block_identifier_type sbid)
     {
         SwappableBlockType& sblock = swappable_blocks[sbid];
+        write_scheduled_blocks_iterator writing_block = write_scheduled_blocks.find(sbid);
+        if (writing_block != write_scheduled_blocks.end())
+        {
+            if (! sblock.is_dirty())
+                return writing_block->second;
+            // => dirty again, the writes must not overtake each other
+            wait_on_write(writing_block);
+        }
         write_read_request* wrr = new write_read_request;
         wrr->write_req = sblock.clean_async(read_after_write(wrr));
         if (wrr->write_req.valid())
-- 
2.43.0


From 0a35a0e316ab50f4b95132e924dd3344dd81c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 53/83] fix: matrix iterators: assignment must not keep the
 block of another matrix

---
 include/stxxl/bits/containers/matrix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix.h b/include/stxxl/bits/containers/matrix.h
index ae6ae1b..42679c5 100644
--- a/include/stxxl/bits/containers/matrix.h
+++ b/include/stxxl/bits/containers/matrix.h
@@ -503,8 +503,10 @@ public:
 
     matrix_iterator& operator = (const matrix_iterator& other)
     {
-        set_pos(other.current_row, other.current_col);
+        if (m != other.m)
+            release_current_iblock(); // belongs to the old matrix
         m = other.m;
+        set_pos(other.current_row, other.current_col);
         if (other.current_iblock)
             acquire_current_iblock();
         return *this;
@@ -806,8 +808,10 @@ public:
 
     const_matrix_iterator& operator = (const const_matrix_iterator& other)
     {
-        set_pos(other.current_row, other.current_col);
+        if (m != other.m)
+            release_current_iblock(); // belongs to the old matrix
         m = other.m;
+        set_pos(other.current_row, other.current_col);
         if (other.current_iblock)
             acquire_current_iblock();
         return *this;
-- 
2.43.0


From aed3fb30a94daff4fb7b389ef479db05dbe5e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 54/83] fix: matrix iterators: operator != compared only
 whether both are non-empty

---
 include/stxxl/bits/containers/matrix.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stxxl/bits/containers/matrix.h b/include/stxxl/bits/containers/matrix.h
index 42679c5..0047089 100644
--- a/include/stxxl/bits/containers/matrix.h
+++ b/include/stxxl/bits/containers/matrix.h
@@ -574,6 +574,11 @@ public:
         return current_row == other.current_row && current_col == other.current_col && m == other.m;
     }
 
+    bool operator != (const matrix_iterator& other) const
+    {
+        return ! operator == (other);
+    }
+
     //! Returns reference access to the element referenced by the iterator.
     //! The reference is only valid so long as the iterator is not moved.
     ValueType& operator * ()
@@ -879,6 +884,11 @@ public:
         return current_row == other.current_row && current_col == other.current_col && m == other.m;
     }
 
+    bool operator != (const const_matrix_iterator& other) const
+    {
+        return ! operator == (other);
+    }
+
     //! Returns reference access to the element referenced by the iterator.
     //! The reference is only valid so long as the iterator is not moved.
     const ValueType& operator * ()
-- 
2.43.0


From 385ecdfbfa6de2b60b061f094d8726525f5d763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 55/83] fix: matrix from two vectors: the result was computed
 into a copy

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 0ae6ffc..dc3131d 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1993,7 +1993,7 @@ struct matrix_operations
 
     // +-+-+-+ vector-vector multiplication +-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+
 
-    static void recursive_matrix_from_vectors(swappable_block_matrix_type A, const column_vector_type& l,
+    static void recursive_matrix_from_vectors(swappable_block_matrix_type& A, const column_vector_type& l,
                                               const row_vector_type& r, vector_size_type offset_l = 0, vector_size_type offset_r = 0)
     {
         // catch empty intervals
@@ -2016,7 +2016,7 @@ struct matrix_operations
         recursive_matrix_from_vectors(qa.dl, l, r, offset_l + qa.ul.get_height(), offset_r                    );
     }
 
-    static void naive_matrix_from_vectors(swappable_block_matrix_type A, const column_vector_type& l,
+    static void naive_matrix_from_vectors(swappable_block_matrix_type& A, const column_vector_type& l,
                                           const row_vector_type& r, vector_size_type offset_l = 0, vector_size_type offset_r = 0)
     {
         for (size_type row = 0; row < A.get_height(); ++row)
-- 
2.43.0


From 2931cfce3d50940ed0ec4bd5b3eecbafc2e02f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 56/83] fix: Strassen-Winograd base case: the right factor is l
 x m, not n x l

---
 .../stxxl/bits/containers/matrix_arithmetic.h    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index dc3131d..252d28e 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -460,7 +460,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -469,7 +469,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
         const swappable_block_matrix_type& existing_a, const size_type a_from_row, const size_type a_from_col,
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -478,7 +478,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(bs_c, n, l),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -486,7 +486,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
     feedable_strassen_winograd(
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(bs_c, n, l),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -881,27 +881,27 @@ struct feedable_strassen_winograd_block_grained<ValueType, BlockSideLength, 0, A
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m) { }
 
     inline feedable_strassen_winograd_block_grained(
         const swappable_block_matrix_type& existing_a, const size_type a_from_row, const size_type a_from_col,
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m) { }
 
     inline feedable_strassen_winograd_block_grained(
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(bs_c, n, l),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m) { }
 
     inline feedable_strassen_winograd_block_grained(
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(bs_c, n, l),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m) { }
 
     inline void feed_a(const size_type& row, const size_type& col, const swappable_block_matrix_type& bl)
-- 
2.43.0


From cc5fdaea05848272421a94822a9ef3e2cbe80faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 57/83] fix: block-grained Strassen-Winograd multiplied the
 left matrix with itself

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 252d28e..2e7fc79 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1441,22 +1441,22 @@ struct matrix_operations
             {
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 5 && 5 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 5:
-                use_feedable_sw_block_grained<5>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<5>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 4 && 4 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 4:
-                use_feedable_sw_block_grained<4>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<4>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 3 && 3 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 3:
-                use_feedable_sw_block_grained<3>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<3>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 2 && 2 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 2:
-                use_feedable_sw_block_grained<2>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<2>(padded_a, padded_b, padded_c);
                 break;
             #endif
             default:  // only here in case of wrong bounds
-- 
2.43.0


From e1188d213328322f1fae2b9090714bd959016e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 58/83] fix: feedable Strassen-Winograd: elements of transposed
 matrices were read untransposed

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 2e7fc79..64a3640 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -667,6 +667,14 @@ struct matrix_to_quadtree<ValueType, BlockSideLength, 0>
     swappable_block_matrix_type m;
     internal_block_type* iblock;
 
+    //! elements are numbered row-major; the blocks of a transposed matrix are stored column-major
+    int_type index_in_block(const int_type element_num) const
+    {
+        return m.is_transposed()
+               ? element_num % int_type(BlockSideLength) * int_type(BlockSideLength) + element_num / int_type(BlockSideLength)
+               : element_num;
+    }
+
     matrix_to_quadtree(const swappable_block_matrix_type& matrix)
         : m(matrix, matrix.get_height(), matrix.get_width(), 0, 0),
           iblock(0) { }
@@ -680,10 +688,10 @@ struct matrix_to_quadtree<ValueType, BlockSideLength, 0>
     { iblock = &m.bs.acquire(m(block_row, block_col)); }
 
     void feed_element(const int_type element_num, const vt v)
-    { (*iblock)[element_num] = v; }
+    { (*iblock)[index_in_block(element_num)] = v; }
 
     void feed_and_add_element(const int_type element_num, const vt v)
-    { (*iblock)[element_num] += v; }
+    { (*iblock)[index_in_block(element_num)] += v; }
 
     void end_feeding_block(const size_type& block_row, const size_type& block_col, const zbt zb)
     {
@@ -699,7 +707,7 @@ struct matrix_to_quadtree<ValueType, BlockSideLength, 0>
     }
 
     vt read_element(const int_type element_num)
-    { return (*iblock)[element_num]; }
+    { return (*iblock)[index_in_block(element_num)]; }
 
     zbt end_reading_block(const size_type& block_row, const size_type& block_col)
     {
-- 
2.43.0


From 224c610fc15698914d55f6b23e806f5bcae0fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 59/83] fix: matrix from two vectors left garbage in the
 padding of its blocks

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 64a3640..c5b9297 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -2038,8 +2038,8 @@ struct matrix_operations
                                                     const column_vector_type& l, const row_vector_type& r,
                                                     vector_size_type offset_l, vector_size_type offset_r)
     {
-        // acquire
-        internal_block_type& ia = bs_a.acquire(a, true);
+        // acquire (not overwriting: elements outside the matrix have to be zero)
+        internal_block_type& ia = bs_a.acquire(a);
         // multiply
         if (! bs_a.is_simulating())
         {
-- 
2.43.0


From 988c05c9ee1d2ea934cbac9b3859dfe3f2819d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 60/83] fix: mmap_file opened with SYNC did not write
 synchronously

---
 lib/io/mmap_file.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/io/mmap_file.cpp b/lib/io/mmap_file.cpp
index 20b3f53..1103b44 100644
--- a/lib/io/mmap_file.cpp
+++ b/lib/io/mmap_file.cpp
@@ -57,6 +57,15 @@ void mmap_file::serve(void* buffer, offset_type offset, size_type bytes,
         else
         {
             memcpy(mem, buffer, bytes);
+
+            // O_SYNC does not apply to memory mapped writes
+            if ((m_mode & SYNC) && msync(mem, bytes, MS_SYNC) != 0)
+            {
+                int saved_errno = errno;
+                munmap(mem, bytes);
+                errno = saved_errno;
+                STXXL_THROW_ERRNO(io_error, "msync() failed path=" << filename);
+            }
         }
         STXXL_THROW_ERRNO_NE_0(munmap(mem, bytes), io_error,
                                "munmap() failed");
-- 
2.43.0


From 03ed75bb4fc807e33158e42ab5d2f2f321005f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 61/83] fix: mmap_file read of a block that extends past the
 end of the file crashed

---
 lib/io/mmap_file.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/io/mmap_file.cpp b/lib/io/mmap_file.cpp
index 1103b44..b7a17e4 100644
--- a/lib/io/mmap_file.cpp
+++ b/lib/io/mmap_file.cpp
@@ -19,6 +19,7 @@
 #include <stxxl/bits/common/error_handling.h>
 #include "ufs_platform.h"
 #include <sys/mman.h>
+#include <cstring>
 
 STXXL_BEGIN_NAMESPACE
 
@@ -31,6 +32,24 @@ void mmap_file::serve(void* buffer, offset_type offset, size_type bytes,
 
     stats::scoped_read_write_timer read_write_timer(bytes, type == request::WRITE);
 
+    if (type == request::READ)
+    {
+        // pages beyond the end of the file cannot be accessed: fill the
+        // remainder with zeros, like syscall_file does.
+        offset_type file_size = this->_size();
+        if (offset >= file_size)
+            STXXL_THROW(io_error, "read past the end of the file" <<
+                        " path=" << filename << " offset=" << offset <<
+                        " bytes=" << bytes << " size=" << file_size);
+
+        if (bytes > file_size - offset)
+        {
+            size_type avail = (size_type)(file_size - offset);
+            memset((char*)buffer + avail, 0, bytes - avail);
+            bytes = avail;
+        }
+    }
+
     int prot = (type == request::READ) ? PROT_READ : PROT_WRITE;
     void* mem = mmap(NULL, bytes, prot, MAP_SHARED, file_des, offset);
     // void *mem = mmap (buffer, bytes, prot , MAP_SHARED|MAP_FIXED , file_des, offset);
-- 
2.43.0


From 81ac5f9c12f5b90c1557724745255dbc3ceb5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 62/83] fix: linuxaio requests still waiting at exit crashed,
 the queue was looked up in the destroyed singleton

---
 include/stxxl/bits/io/linuxaio_request.h | 4 +++-
 lib/io/linuxaio_queue.cpp                | 2 +-
 lib/io/linuxaio_request.cpp              | 6 ++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/io/linuxaio_request.h b/include/stxxl/bits/io/linuxaio_request.h
index 7b11950..7a612b7 100644
--- a/include/stxxl/bits/io/linuxaio_request.h
+++ b/include/stxxl/bits/io/linuxaio_request.h
@@ -28,6 +28,8 @@ STXXL_BEGIN_NAMESPACE
 //! \addtogroup reqlayer
 //! \{
 
+class linuxaio_queue;
+
 //! Request for an linuxaio_file.
 class linuxaio_request : public request_with_state
 {
@@ -57,7 +59,7 @@ public:
                                " type=" << type << ")");
     }
 
-    bool post();
+    bool post(linuxaio_queue* queue);
     bool cancel();
     bool cancel_aio();
     void check_result(long result);
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 1ec052c..176a1fb 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -152,7 +152,7 @@ void linuxaio_queue::post_requests()
             linuxaio_request* areq = dynamic_cast<linuxaio_request*>(req.get());
             try
             {
-                while (!areq->post())
+                while (!areq->post(this))
                 {
                     // post failed due to a lack of resources. Completed events
                     // are reaped by the wait thread only (there may be none at
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 745171f..7a84e1e 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -96,8 +96,9 @@ void linuxaio_request::fill_control_block()
 }
 
 //! Submits an I/O request to the OS
+//! \param queue the queue that posts the request
 //! \returns false if submission fails
-bool linuxaio_request::post()
+bool linuxaio_request::post(linuxaio_queue* queue)
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] post()");
 
@@ -106,9 +107,6 @@ bool linuxaio_request::post()
     // io_submit might take considerable time, and the request may even finish
     // before it returns, so account for the request before the call.
     double now = timestamp();
-    linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
-        );
     if (m_type == READ)
         stats::get_instance()->read_started(m_bytes, now);
     else
-- 
2.43.0


From 51ec495f0a0a803c04e7f094e5ba908ea2f29774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 63/83] fix: block_manager was destroyed before the disk queues
 had finished, static containers crashed at exit

---
 include/stxxl/bits/io/disk_queues.h | 17 ++++++++++++++---
 lib/mng/block_manager.cpp           |  6 ++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/io/disk_queues.h b/include/stxxl/bits/io/disk_queues.h
index 3c972a4..1485f78 100644
--- a/include/stxxl/bits/io/disk_queues.h
+++ b/include/stxxl/bits/io/disk_queues.h
@@ -106,13 +106,24 @@ public:
         return qi != queues.end() ? qi->second : NULL;
     }
 
-    ~disk_queues()
+    //! Finishes all requests submitted so far by deallocating all queues. They
+    //! are created anew when needed.
+    void finish_requests()
     {
-        // deallocate all queues
-        for (request_queue_map::iterator i = queues.begin(); i != queues.end(); i++)
+        request_queue_map old_queues;
+        {
+            scoped_mutex_lock lock(queues_mutex);
+            queues.swap(old_queues);
+        }
+        for (request_queue_map::iterator i = old_queues.begin(); i != old_queues.end(); i++)
             delete (*i).second;
     }
 
+    ~disk_queues()
+    {
+        finish_requests();
+    }
+
     //! Changes requests priorities.
     //! \param op one of:
     //!                 - READ, read requests are served before write requests within a disk queue
diff --git a/lib/mng/block_manager.cpp b/lib/mng/block_manager.cpp
index ebe4b5a..a9bf71b 100644
--- a/lib/mng/block_manager.cpp
+++ b/lib/mng/block_manager.cpp
@@ -14,6 +14,7 @@
 
 #include <stxxl/bits/common/types.h>
 #include <stxxl/bits/io/create_file.h>
+#include <stxxl/bits/io/disk_queues.h>
 #include <stxxl/bits/io/file.h>
 #include <stxxl/bits/mng/block_manager.h>
 #include <stxxl/bits/mng/config.h>
@@ -33,6 +34,10 @@ block_manager::block_manager()
 {
     config* config = config::get_instance();
 
+    // the queues must outlive ourselves: containers with static storage
+    // duration do I/O at exit, and requests to the disks may be unfinished then.
+    disk_queues::get_instance();
+
     // initialize config (may read config files now)
     config->check_initialized();
 
@@ -89,6 +94,7 @@ block_manager::block_manager()
 block_manager::~block_manager()
 {
     STXXL_VERBOSE1("Block manager destructor");
+    disk_queues::get_instance()->finish_requests();
     for (size_t i = ndisks; i > 0; )
     {
         --i;
-- 
2.43.0


From fc72413b2f84d447c6ad23ddd4753548d0866433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 64/83] fix: linuxaio_queue could terminate with requests left,
 the token of a request was taken for that of the termination

---
 include/stxxl/bits/io/linuxaio_queue.h |  3 +++
 lib/io/linuxaio_queue.cpp              | 34 +++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/io/linuxaio_queue.h b/include/stxxl/bits/io/linuxaio_queue.h
index 7f25090..4780815 100644
--- a/include/stxxl/bits/io/linuxaio_queue.h
+++ b/include/stxxl/bits/io/linuxaio_queue.h
@@ -50,6 +50,9 @@ private:
     mutex waiting_mtx, posted_mtx;
     queue_type waiting_requests;
 
+    //! number of requests posted and not yet completed, protected by posted_mtx
+    int num_requests_in_os;
+
     //! max number of OS requests
     int max_events;
     //! number of requests in waitings_requests
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 176a1fb..a4b951c 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -33,7 +33,8 @@
 STXXL_BEGIN_NAMESPACE
 
 linuxaio_queue::linuxaio_queue(int desired_queue_length)
-    : num_waiting_requests(0), num_free_events(0), num_posted_requests(0),
+    : num_requests_in_os(0),
+      num_waiting_requests(0), num_free_events(0), num_posted_requests(0),
       post_thread_state(NOT_RUNNING), wait_thread_state(NOT_RUNNING)
 {
     if (desired_queue_length == 0) {
@@ -135,11 +136,15 @@ void linuxaio_queue::post_requests()
         // might block until next request or message comes in
         int num_currently_waiting_requests = num_waiting_requests--;
 
-        // terminate if termination has been requested
-        if (post_thread_state() == TERMINATING && num_currently_waiting_requests == 0)
+        scoped_mutex_lock lock(waiting_mtx);
+
+        // terminate if termination has been requested and nothing is left. The
+        // token may be one of a request, TERMINATING is set before the token
+        // for the termination is added.
+        if (post_thread_state() == TERMINATING &&
+            num_currently_waiting_requests == 0 && waiting_requests.empty())
             break;
 
-        scoped_mutex_lock lock(waiting_mtx);
         if (!waiting_requests.empty())
         {
             req = waiting_requests.front();
@@ -148,6 +153,11 @@ void linuxaio_queue::post_requests()
 
             num_free_events--; // might block because too many requests are posted
 
+            {
+                scoped_mutex_lock posted_lock(posted_mtx);
+                ++num_requests_in_os;
+            }
+
             // polymorphic_downcast
             linuxaio_request* areq = dynamic_cast<linuxaio_request*>(req.get());
             try
@@ -166,6 +176,10 @@ void linuxaio_queue::post_requests()
                 // any other request
                 areq->error_occured(ex.what());
                 areq->completed(false, false);
+                {
+                    scoped_mutex_lock posted_lock(posted_mtx);
+                    --num_requests_in_os;
+                }
                 num_free_events++;
                 continue;
             }
@@ -195,6 +209,10 @@ void linuxaio_queue::handle_events(io_event* events, long num_events, bool cance
             req->check_result(static_cast<long>(events[e].res));
         req->completed(canceled);
         delete r;              // release auto_ptr reference
+        {
+            scoped_mutex_lock lock(posted_mtx);
+            --num_requests_in_os;
+        }
         num_free_events++;
         num_posted_requests--; // will never block
     }
@@ -211,9 +229,13 @@ void linuxaio_queue::wait_requests()
         // might block until next request is posted or message comes in
         int num_currently_posted_requests = num_posted_requests--;
 
-        // terminate if termination has been requested
+        // terminate if termination has been requested and nothing is left
         if (wait_thread_state() == TERMINATING && num_currently_posted_requests == 0)
-            break;
+        {
+            scoped_mutex_lock lock(posted_mtx);
+            if (num_requests_in_os == 0)
+                break;
+        }
 
         // wait for at least one of them to finish
         long num_events;
-- 
2.43.0


From ec5c49d3373b0ecc02f9b519e7595a85d2a66bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 65/83] fix: I/O worker threads could terminate with requests
 left in their queues

---
 lib/io/request_queue_impl_1q.cpp   | 12 ++++++++----
 lib/io/request_queue_impl_qwqr.cpp | 13 +++++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/io/request_queue_impl_1q.cpp b/lib/io/request_queue_impl_1q.cpp
index 2f1faf9..aba177c 100644
--- a/lib/io/request_queue_impl_1q.cpp
+++ b/lib/io/request_queue_impl_1q.cpp
@@ -142,10 +142,14 @@ void* request_queue_impl_1q::worker(void* arg)
 
         // terminate if it has been requested and queues are empty
         if (pthis->m_thread_state() == TERMINATING) {
-            if ((pthis->m_sem--) == 0)
-                break;
-            else
-                pthis->m_sem++;
+            if ((pthis->m_sem--) == 0) {
+                // the token may be one of a request, TERMINATING is set before
+                // the token for the termination is added.
+                scoped_mutex_lock Lock(pthis->m_queue_mutex);
+                if (pthis->m_queue.empty())
+                    break;
+            }
+            pthis->m_sem++;
         }
     }
 
diff --git a/lib/io/request_queue_impl_qwqr.cpp b/lib/io/request_queue_impl_qwqr.cpp
index 5f267cc..653d8f3 100644
--- a/lib/io/request_queue_impl_qwqr.cpp
+++ b/lib/io/request_queue_impl_qwqr.cpp
@@ -209,10 +209,15 @@ void* request_queue_impl_qwqr::worker(void* arg)
 
         // terminate if it has been requested and queues are empty
         if (pthis->m_thread_state() == TERMINATING) {
-            if ((pthis->m_sem--) == 0)
-                break;
-            else
-                pthis->m_sem++;
+            if ((pthis->m_sem--) == 0) {
+                // the token may be one of a request, TERMINATING is set before
+                // the token for the termination is added.
+                scoped_mutex_lock WriteLock(pthis->m_write_mutex);
+                scoped_mutex_lock ReadLock(pthis->m_read_mutex);
+                if (pthis->m_write_queue.empty() && pthis->m_read_queue.empty())
+                    break;
+            }
+            pthis->m_sem++;
         }
     }
 
-- 
2.43.0


From e68944a56f0c2e791fe9c20dcba7f02c10cfd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 66/83] fix: containers of static storage duration created
 before the block manager crashed at exit

---
 .../stxxl/bits/containers/hash_map/hash_map.h   |  4 ++++
 .../bits/containers/parallel_priority_queue.h   |  3 +++
 include/stxxl/bits/containers/priority_queue.h  |  3 +++
 include/stxxl/bits/containers/stack.h           | 17 ++++++++++++++++-
 include/stxxl/bits/stream/sorted_runs.h         |  5 ++++-
 5 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index afb3c00..834a6f8 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -190,6 +190,8 @@ public:
           num_total_(0),
           opt_load_factor_(0.875)
     {
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
         max_buffer_size_ = buffer_size / sizeof(node_type);
     }
 
@@ -226,6 +228,8 @@ public:
           num_total_(0),
           opt_load_factor_(0.875)
     {
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
         max_buffer_size_ = buffer_size / sizeof(node_type);
         insert(begin, end, mem_to_sort);
     }
diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 558396f..7236030 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2368,6 +2368,9 @@ public:
           // flags
           m_limit_extract(false)
     {
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
+
 #if STXXL_PARALLEL
         if (!omp_get_nested()) {
             omp_set_nested(1);
diff --git a/include/stxxl/bits/containers/priority_queue.h b/include/stxxl/bits/containers/priority_queue.h
index 3fd2547..c4c1ace 100644
--- a/include/stxxl/bits/containers/priority_queue.h
+++ b/include/stxxl/bits/containers/priority_queue.h
@@ -413,6 +413,9 @@ priority_queue<ConfigType>::priority_queue(unsigned_type p_pool_mem, unsigned_ty
 template <class ConfigType>
 void priority_queue<ConfigType>::init()
 {
+    // must be destroyed after us if we have static storage duration
+    block_manager::get_instance();
+
     assert(!cmp(cmp.min_value(), cmp.min_value())); // verify strict weak ordering
 
     ext_mergers = new ext_merger_type*[num_ext_groups];
diff --git a/include/stxxl/bits/containers/stack.h b/include/stxxl/bits/containers/stack.h
index 71ac560..261c17a 100644
--- a/include/stxxl/bits/containers/stack.h
+++ b/include/stxxl/bits/containers/stack.h
@@ -100,6 +100,8 @@ public:
           back_page(cache.begin()),
           bids(0)
     {
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
         bids.reserve(blocks_per_page);
     }
 
@@ -136,6 +138,8 @@ public:
           back_page(cache.begin()),
           bids(0)
     {
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
         bids.reserve(blocks_per_page);
 
         StackType stack_copy = stack_;
@@ -343,6 +347,8 @@ public:
           requests(blocks_per_page),
           bids(0)
     {
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
         bids.reserve(blocks_per_page);
     }
 
@@ -383,6 +389,8 @@ public:
           requests(blocks_per_page),
           bids(0)
     {
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
         bids.reserve(blocks_per_page);
 
         StackType stack_copy = stack_;
@@ -585,6 +593,8 @@ public:
           pool(&pool_)
     {
         STXXL_VERBOSE2("grow_shrink_stack2::grow_shrink_stack2(...)");
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
     }
 
     //! Default constructor: creates empty stack. The stack will use the pair
@@ -608,6 +618,8 @@ public:
           pool(owned_pool)
     {
         STXXL_VERBOSE2("grow_shrink_stack2::grow_shrink_stack2(...)");
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
     }
 
     //! \}
@@ -829,7 +841,10 @@ public:
     //! Default constructor: creates empty stack.
     migrating_stack()
         : int_impl(new int_stack_type()), ext_impl(NULL)
-    { }
+    {
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
+    }
 
     virtual ~migrating_stack()
     {
diff --git a/include/stxxl/bits/stream/sorted_runs.h b/include/stxxl/bits/stream/sorted_runs.h
index faa6be7..283008b 100644
--- a/include/stxxl/bits/stream/sorted_runs.h
+++ b/include/stxxl/bits/stream/sorted_runs.h
@@ -65,7 +65,10 @@ struct sorted_runs : private noncopyable, public counted_object
 public:
     sorted_runs()
         : elements(0)
-    { }
+    {
+        // must be destroyed after us if we have static storage duration
+        block_manager::get_instance();
+    }
 
     ~sorted_runs()
     {
-- 
2.43.0


From 63245723816958b70cf3c474be225ea6de80bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 67/83] fix: winner_tree::double_num_slots never ended, the
 loop counter is unsigned

---
 include/stxxl/bits/common/winner_tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/winner_tree.h b/include/stxxl/bits/common/winner_tree.h
index 598cd1e..3664d26 100644
--- a/include/stxxl/bits/common/winner_tree.h
+++ b/include/stxxl/bits/common/winner_tree.h
@@ -251,8 +251,8 @@ public:
         size_t tree_size = (m_num_slots << 1) - 1;
         m_tree.resize(tree_size, invalid_key);
 
-        for (unsigned_type i = old_tree_size - 1; i >= 0; --i) {
-            size_t old_index = i;
+        for (size_t i = old_tree_size; i > 0; --i) {
+            size_t old_index = i - 1;
             size_t old_level = ilog2_floor(old_index + 1);
             size_t new_index = old_index + (1 << old_level);
             m_tree[new_index] = m_tree[old_index];
-- 
2.43.0


From c8b61e2532a25b0327ed9e1427d69789b812eba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 68/83] fix: parallel_priority_queue left vanished internal
 arrays in the minima tree

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 7236030..b72209b 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -1800,6 +1800,7 @@ public:
         }
         else
         {
+            m_ia.clear();
             m_head.deactivate_player(IA);
         }
     }
-- 
2.43.0


From ce0c69f557578c460f0304c7b8f3ab53043cc473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 69/83] fix: parallel_priority_queue::bulk_pop of zero elements
 extracted some

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index b72209b..d60fd74 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2820,6 +2820,12 @@ public:
         const size_t n_elements = std::min<size_t>(max_size, size());
         assert(n_elements < m_extract_buffer_limit);
 
+        // zero means unlimited for refill_extract_buffer()
+        if (n_elements == 0) {
+            out.clear();
+            return;
+        }
+
         if (m_heaps_size > 0)
             flush_insertion_heaps();
 
-- 
2.43.0


From 0f46737b9ebbb90fa59881a98ff5673ca80aa68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 70/83] fix: parallel_priority_queue::merge_external_arrays
 crashed without external arrays

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index d60fd74..b5c99c6 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -4195,6 +4195,9 @@ protected:
             ea_index.push_back(i);
         }
 
+        // nothing to merge
+        if (ea_index.empty()) return;
+
         // return if there is not enough RAM for the new array.
         // TODO: force_merge_all==true is for freeing memory. Breaking here is not
         // helpful in this case. But one should maybe reserve some space in advance.
-- 
2.43.0


From 0c7660be208235a14ae50ea4edc9632cbc924015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 71/83] fix: parallel_priority_queue got stuck on runs of equal
 items longer than its read blocks

---
 .../bits/containers/parallel_priority_queue.h  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index b5c99c6..3cc01c2 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2881,8 +2881,8 @@ public:
             const value_type& ea_limit =
                 m_external_arrays[limiting_ea_index].get_next_block_min();
 
-            if (m_compare(ea_limit, this_limit)) {
-                // No more EM data smaller or equal to limit
+            if (!m_inv_compare(ea_limit, this_limit)) {
+                // No more EM data smaller than the limit
                 break;
             }
 
@@ -2916,7 +2916,11 @@ public:
                 end = m_internal_arrays[j].end();
             }
 
-            end = std::lower_bound(begin, end, this_limit, m_inv_compare);
+            // if limited by the data available in RAM then items equal to the
+            // minimum of the next block can be extracted as well.
+            end = has_full_range
+                  ? std::lower_bound(begin, end, limit, m_inv_compare)
+                  : std::upper_bound(begin, end, this_limit, m_inv_compare);
 
             sizes[i] = std::distance(begin, end);
             sequences[i] = std::make_pair(begin, end);
@@ -3688,15 +3692,17 @@ protected:
 
                 // remove timer if parallel
                 //stats.refill_lower_bound_time.start();
+                // items equal to the limit can be merged as well, otherwise a
+                // run of equal items longer than the read blocks is stuck.
                 if (reuse_previous_lower_bounds) {
                     // Be careful that sequences[i].second is really valid and
                     // set by a previous calculate_merge_sequences() run!
-                    end = std::lower_bound(sequences[i].second, end,
+                    end = std::upper_bound(sequences[i].second, end,
                                            gmin_value, m_inv_compare);
                 }
                 else
                 {
-                    end = std::lower_bound(begin, end,
+                    end = std::upper_bound(begin, end,
                                            gmin_value, m_inv_compare);
                 }
                 //stats.refill_lower_bound_time.stop();
@@ -4338,7 +4344,7 @@ protected:
                         const value_type& gmin_value =
                             m_external_arrays[gmin_index].get_next_block_min();
 
-                        end = std::lower_bound(begin, end,
+                        end = std::upper_bound(begin, end,
                                                gmin_value, m_inv_compare);
                     }
 
-- 
2.43.0


From 6b4b9f7af6b206f30fe48966ddb8b79445cd9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 72/83] fix: parallel_priority_queue could not read external
 arrays created during a limit session

---
 .../bits/containers/parallel_priority_queue.h | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 3cc01c2..a921fc8 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2804,10 +2804,7 @@ public:
             }
         }
 
-        if (m_bulk_first_delayed_external_array != m_external_arrays.size()) {
-            STXXL_DEBUG("bulk_push_end: run delayed re-hinting of EAs");
-            rebuild_hint_tree();
-        }
+        rehint_delayed_external_arrays();
 
         check_invariants();
     }
@@ -2863,6 +2860,10 @@ public:
                 flush_insertion_heaps_with_limit(limit);
         }
 
+        // inside a limit session: EAs created meanwhile were not hinted yet.
+        if (m_in_bulk_push)
+            rehint_delayed_external_arrays();
+
         size_type ias = m_internal_arrays.size();
         size_type eas = m_external_arrays.size();
         std::vector<size_type> sizes(eas + ias);
@@ -3380,8 +3381,8 @@ public:
         // Rebuild hint tree completely as the hint sequence may have changed.
         if (!m_in_bulk_push)
             rebuild_hint_tree();
-        else
-            assert(m_external_arrays.size() - 1 >= m_bulk_first_delayed_external_array);
+        else // delayed, see rehint_delayed_external_arrays()
+            m_bulk_first_delayed_external_array = 0;
 
         check_invariants();
     }
@@ -3515,6 +3516,17 @@ public:
         m_stats.hint_time.stop();
     }
 
+    //! Runs the re-hinting of EAs which was delayed during a sequence of bulk
+    //! push operations.
+    void rehint_delayed_external_arrays()
+    {
+        if (m_bulk_first_delayed_external_array != m_external_arrays.size()) {
+            STXXL_DEBUG("run delayed re-hinting of EAs");
+            rebuild_hint_tree();
+            m_bulk_first_delayed_external_array = m_external_arrays.size();
+        }
+    }
+
     //! Updates the prefetch prediction tree afer a remove_items(), which frees
     //! up blocks.
     //! \param ea_index index of the external array in question
@@ -4152,8 +4164,8 @@ protected:
         // Rebuild hint tree completely as the hint sequence may have changed.
         if (!m_in_bulk_push)
             rebuild_hint_tree();
-        else
-            assert(m_external_arrays.size() - 1 >= m_bulk_first_delayed_external_array);
+        else // delayed, see rehint_delayed_external_arrays()
+            m_bulk_first_delayed_external_array = 0;
 
         check_invariants();
     }
-- 
2.43.0


From e1dce0860d4d816c9bfef8a513bdc50e568042df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 73/83] fix: parallel_priority_queue::check_external_level took
 unlimited memory when merging with too little memory

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index a921fc8..02a7d27 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -4273,7 +4273,9 @@ protected:
                 min_tree.rebuild();
 
                 // === fill available memory with read blocks ===
-                while (m_mem_left >= block_size) {
+                // force_merge_all may have overdrawn the memory, then m_mem_left
+                // wrapped around.
+                while (m_mem_left >= block_size && m_mem_left <= m_mem_total) {
                     block_type* new_block = new block_type();
                     m_pool.add_prefetch(new_block);
                     ++m_num_read_blocks;
-- 
2.43.0


From b1a19a787e7f12bbcc06d7cbc7bb728ff3b85810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 74/83] fix: parallel_priority_queue deadlocked when all write
 blocks were held by merging threads

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 02a7d27..1edecb1 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -807,8 +807,9 @@ public:
         unsigned_type write_blocks = num_threads;
         // need at least one
         if (write_blocks == 0) write_blocks = 1;
-        // for holding boundary blocks
-        write_blocks *= 2;
+        // for holding boundary blocks, and because a thread holds two blocks
+        // while it copies the remainder of the last sequence.
+        write_blocks *= 3;
         // more disks than threads?
         if (write_blocks < config::get_instance()->disks_number())
             write_blocks = config::get_instance()->disks_number();
-- 
2.43.0


From 92d2f7adf1296a4b73f3879ad54c9d120c17023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 75/83] fix: parallel_priority_queue::limit_pop after
 limit_push flushed the extract buffer underflowed

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 1edecb1..de6e6ce 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3253,6 +3253,10 @@ public:
     {
         assert(m_limit_extract);
 
+        // limit_push() may have flushed the extract buffer since limit_top().
+        if (extract_buffer_empty())
+            limit_top();
+
         ++m_extract_buffer_index;
         assert(m_extract_buffer_size > 0);
         --m_extract_buffer_size;
-- 
2.43.0


From 942f7f7e19a5a2aa7d85b419aa1b408fdb4cdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 76/83] fix: parallel_priority_queue lost blocks by canceling
 writes when hints were rebuilt

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index de6e6ce..06d59b3 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -1001,7 +1001,10 @@ public:
         for (size_t i = m_unhinted_block; i < m_old_unhinted_block; ++i) {
             STXXL_DEBUG("ea[" << this << "]: discarding prefetch hint on"
                         " block " << i);
-            m_requests[i]->cancel();
+            // the request may be a write, if the block was taken from the
+            // write pool. It must not be canceled.
+            if (m_requests[i]->get_type() == request::READ)
+                m_requests[i]->cancel();
             m_requests[i]->wait();
             // put block back into pool
             m_pool->add_prefetch(m_blocks[i]);
-- 
2.43.0


From 53b5bea3dcbc47356c9f130afaf281ba7bdf900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 77/83] fix: parallel_priority_queue merged external arrays in
 wrong order when hinted blocks were released

The minima tree of check_external_level was built from the hint positions
before these are reset, hence arrays with hinted blocks were ignored or
considered too late.
---
 .../stxxl/bits/containers/parallel_priority_queue.h   | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 06d59b3..376bf90 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -4269,6 +4269,12 @@ protected:
 
                 // === build hints ===
 
+                // cleanup hints (all arrays, not only the ones to merge). This
+                // resets the next hintable block, which min_tree compares.
+                for (unsigned_type i = 0; i < m_external_arrays.size(); ++i) {
+                    m_external_arrays[i].rebuild_hints_prepare();
+                }
+
                 for (int_type i = 0; i < num_arrays_to_merge; ++i) {
                     if (m_external_arrays[ea_index[i]].has_unhinted_em_data()) {
                         min_tree.activate_without_replay(i);
@@ -4291,11 +4297,6 @@ protected:
                 }
                 // ==============================================
 
-                // cleanup hints (all arrays, not only the ones to merge)
-                for (unsigned_type i = 0; i < m_external_arrays.size(); ++i) {
-                    m_external_arrays[i].rebuild_hints_prepare();
-                }
-
                 // virtually release all hints
                 unsigned_type free_prefetch_blocks =
                     m_pool.free_size_prefetch() + m_num_hinted_blocks;
-- 
2.43.0


From 7cc5fd81f45487adcaf5c75c62ec78eab13d5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:09 +0000
Subject: [PATCH 78/83] fix: simdisk aborted or slept for ages when a transfer
 took longer than simulated

---
 lib/io/simdisk_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/io/simdisk_file.cpp b/lib/io/simdisk_file.cpp
index a39f58b..82e41a2 100644
--- a/lib/io/simdisk_file.cpp
+++ b/lib/io/simdisk_file.cpp
@@ -196,7 +196,8 @@ void sim_disk_file::serve(void* buffer, offset_type offset, size_type bytes,
 
     delay = delay - timestamp() + op_start;
 
-    assert(delay > 0.0);
+    if (delay <= 0.0)
+        return; // the transfer itself took longer than on the simulated disk
 
     int seconds_to_wait = static_cast<int>(floor(delay));
     if (seconds_to_wait)
-- 
2.43.0


From 25dd32cd3fe7164ccaa01c703f11d282a4e59709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:09 +0000
Subject: [PATCH 79/83] fix: wbtl_file freed its write buffer while the backend
 was still writing it

---
 lib/io/wbtl_file.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index 310d76a..0dc3987 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -49,6 +49,16 @@ wbtl_file::wbtl_file(
 
 wbtl_file::~wbtl_file()
 {
+    // the write buffer may still be in use
+    if (backend_request.get()) {
+        try {
+            backend_request->wait(false);
+        }
+        catch (const io_error& ex) {
+            STXXL_ERRMSG("wbtl:~wbtl_file: " << ex.what());
+        }
+        backend_request = request_ptr();
+    }
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[1]);
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[0]);
     delete storage;
-- 
2.43.0


From ab61b1724330c703ba23d4688fb8d3ff416053ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:41 +0000
Subject: [PATCH 80/83] fix: wbtl_file changed its free list without holding
 the lock

---
 lib/io/wbtl_file.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index 0dc3987..b2d9d1b 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -281,8 +281,10 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
             STXXL_VERBOSE_WBTL("wbtl:w2disk  p" << FMT_A_S(buffer_address[curbuf], write_block_size));
 
             // mark remaining part as free
-            if (curpos < write_block_size)
+            if (curpos < write_block_size) {
+                scoped_mutex_lock mapping_lock(mapping_mutex);
                 _add_free_region(buffer_address[curbuf] + curpos, write_block_size - curpos);
+            }
 
             if (backend_request.get()) {
                 backend_request->wait(false);
@@ -293,7 +295,10 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
 
         curbuf = 1 - curbuf;
 
-        buffer_address[curbuf] = get_next_write_block();
+        {
+            scoped_mutex_lock mapping_lock(mapping_mutex);
+            buffer_address[curbuf] = get_next_write_block();
+        }
         curpos = 0;
     }
     assert(bytes <= write_block_size - curpos);
-- 
2.43.0


From ea795f5b795b2fa439831161c753948299257469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:21 +0000
Subject: [PATCH 81/83] fix: wbtl_file wrote buffers to the wrong place after
 running out of space

---
 lib/io/wbtl_file.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index b2d9d1b..6b411d8 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -284,6 +284,7 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
             if (curpos < write_block_size) {
                 scoped_mutex_lock mapping_lock(mapping_mutex);
                 _add_free_region(buffer_address[curbuf] + curpos, write_block_size - curpos);
+                curpos = write_block_size;
             }
 
             if (backend_request.get()) {
@@ -291,9 +292,13 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
             }
 
             backend_request = storage->awrite(write_buffer[curbuf], buffer_address[curbuf], write_block_size);
-        }
 
-        curbuf = 1 - curbuf;
+            // no write block assigned to the other buffer yet: if there is no
+            // space for one, this is tried again by the next write
+            curbuf = 1 - curbuf;
+            buffer_address[curbuf] = offset_type(-1);
+            curpos = write_block_size;
+        }
 
         {
             scoped_mutex_lock mapping_lock(mapping_mutex);
-- 
2.43.0


From 592a81be1e1477dfc25ca0a6a05b883b94a8984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 82/83] fix: a stand-alone wbtl file waited for its backend's
 requests in the thread serving them

---
 include/stxxl/bits/io/file.h | 1 +
 lib/io/create_file.cpp       | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/io/file.h b/include/stxxl/bits/io/file.h
index 1615b13..3160dba 100644
--- a/include/stxxl/bits/io/file.h
+++ b/include/stxxl/bits/io/file.h
@@ -81,6 +81,7 @@ public:
 
     static const int DEFAULT_QUEUE = -1;
     static const int DEFAULT_LINUXAIO_QUEUE = -2;
+    static const int DEFAULT_WBTL_BACKEND_QUEUE = -3;
     static const int NO_ALLOCATOR = -1;
     static const unsigned int DEFAULT_DEVICE_ID = (unsigned int)(-1);
 
diff --git a/lib/io/create_file.cpp b/lib/io/create_file.cpp
index 7add1fb..35c79d1 100644
--- a/lib/io/create_file.cpp
+++ b/lib/io/create_file.cpp
@@ -219,7 +219,9 @@ file * create_file(disk_config& cfg, int mode, int disk_allocator_id)
     else if (cfg.io_impl == "wbtl")
     {
         ufs_file_base* backend =
-            new syscall_file(cfg.path, mode, -1, -1); // FIXME: ID
+            // requests of the wbtl_file wait for requests of its backend, which
+            // therefore must not be served by the same queue
+            new syscall_file(cfg.path, mode, file::DEFAULT_WBTL_BACKEND_QUEUE, -1); // FIXME: ID
         wbtl_file* result =
             new stxxl::wbtl_file(backend, 16 * 1024 * 1024, 2, cfg.queue,
                                  disk_allocator_id);
-- 
2.43.0


From 1fd4d3e5bf5c37ada2cbf42c766cd935022a7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 83/83] fix: vector::export_files left out what was still in
 the page cache

---
 include/stxxl/bits/containers/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 9d5365c..7309205 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1524,6 +1524,7 @@ public:
     //! files will be numbered ascending.
     void export_files(std::string filename_prefix)
     {
+        flush();
         int64 no = 0;
         for (bids_container_iterator i = m_bids.begin(); i != m_bids.end(); ++i) {
             std::ostringstream number;
-- 
2.43.0

