From c38820729e08e4587a5fbeddf2fc73244485ca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:10 +0000
Subject: [PATCH 01/33] fix: keep the remaining condition waiters when the
 first one times out

---
 src/kern/sync/hev-task-cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/sync/hev-task-cond.c b/src/kern/sync/hev-task-cond.c
index a8a6c77..7dedb3b 100644
--- a/src/kern/sync/hev-task-cond.c
+++ b/src/kern/sync/hev-task-cond.c
@@ -77,7 +77,7 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
         if (node.next)
             node.next->prev = node.prev;
         if (self->waiters == &node)
-            self->waiters = NULL;
+            self->waiters = node.next;
         return -1;
     }
 
-- 
2.43.0


From 6dd5ce23290afc115c0a437186ca82f040a7b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:05 +0000
Subject: [PATCH 02/33] fix: wake the joining task when a task ends through
 hev_task_exit

---
 src/kern/task/hev-task.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 164a318..9767ed5 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -187,6 +187,11 @@ hev_task_run (HevTask *self, HevTaskEntry entry, void *data)
 EXPORT_SYMBOL void
 hev_task_exit (void)
 {
+    HevTask *task = hev_task_self ();
+
+    if (task->joiner)
+        hev_task_wakeup (task->joiner);
+
     hev_task_system_kill_current_task ();
 }
 
-- 
2.43.0


From add18cac87d00b9bbf6e1216057c6f7b61119842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:07 +0000
Subject: [PATCH 03/33] fix: forget the joining task when a join completes

---
 src/kern/task/hev-task.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 9767ed5..f92e773 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -211,6 +211,8 @@ hev_task_join (HevTask *task)
         hev_task_yield (HEV_TASK_WAITIO);
     }
 
+    task->joiner = NULL;
+
     return 0;
 }
 
-- 
2.43.0


From f0b3c180b233dc01857b77d44d4b41f831398995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:26 +0000
Subject: [PATCH 04/33] fix: carry a full second of nanoseconds into the expiry
 time

---
 src/kern/time/hev-task-timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index cf212cc..b4ab061 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -60,7 +60,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
 
     expire->tv_sec += microseconds / 1000000;
     expire->tv_nsec += (microseconds % 1000000) * 1000;
-    if (expire->tv_nsec > 1000000000L) {
+    if (expire->tv_nsec >= 1000000000L) {
         expire->tv_sec++;
         expire->tv_nsec -= 1000000000L;
     }
-- 
2.43.0


From 318bbfcfb6a3b07383840b0cbfc4ac0cc861fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:31 +0000
Subject: [PATCH 05/33] fix: sleep for the whole time when milliseconds exceed
 32 bit microseconds

---
 src/kern/task/hev-task.c       | 11 ++++++++++-
 src/kern/time/hev-task-timer.c |  9 ++++-----
 src/kern/time/hev-task-timer.h |  6 ++++--
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index f92e773..39b4a00 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -154,7 +154,16 @@ hev_task_yield (HevTaskYieldType type)
 EXPORT_SYMBOL unsigned int
 hev_task_sleep (unsigned int milliseconds)
 {
-    return hev_task_usleep (milliseconds * 1000) / 1000;
+    HevTaskSystemContext *ctx;
+    uint64_t microseconds;
+
+    if (milliseconds == 0)
+        return 0;
+
+    ctx = hev_task_system_get_context ();
+    microseconds = (uint64_t)milliseconds * 1000;
+    return hev_task_timer_wait (ctx->timer, microseconds, ctx->current_task) /
+           1000;
 }
 
 EXPORT_SYMBOL unsigned int
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index b4ab061..4c88c27 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -53,7 +53,7 @@ hev_task_timer_node_compare (HevTaskTimerNode *a, HevTaskTimerNode *b)
 }
 
 static inline void
-hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
+hev_task_timer_get_expire (struct timespec *expire, uint64_t microseconds)
 {
     if (clock_gettime (CLOCK_MONOTONIC, expire) < 0)
         abort ();
@@ -66,7 +66,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
     }
 }
 
-static inline unsigned int
+static inline uint64_t
 hev_task_timer_get_time (const struct timespec *expire)
 {
     struct timespec curr;
@@ -89,9 +89,8 @@ hev_task_timer_get_time (const struct timespec *expire)
     return (sec * 1000000) + (nsec / 1000);
 }
 
-unsigned int
-hev_task_timer_wait (HevTaskTimer *self, unsigned int microseconds,
-                     HevTask *task)
+uint64_t
+hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds, HevTask *task)
 {
     HevTaskTimerNode curr_node, *node = &curr_node;
     HevRBTreeNode **new = &self->sort_tree.base.root, *parent = NULL;
diff --git a/src/kern/time/hev-task-timer.h b/src/kern/time/hev-task-timer.h
index 68d100a..d1a0b34 100644
--- a/src/kern/time/hev-task-timer.h
+++ b/src/kern/time/hev-task-timer.h
@@ -10,6 +10,8 @@
 #ifndef __HEV_TASK_TIMER_H__
 #define __HEV_TASK_TIMER_H__
 
+#include <stdint.h>
+
 #include "kern/task/hev-task-private.h"
 #include "lib/rbtree/hev-rbtree-cached.h"
 
@@ -24,7 +26,7 @@ struct _HevTaskTimer
 HevTaskTimer *hev_task_timer_new (void);
 void hev_task_timer_destroy (HevTaskTimer *self);
 
-unsigned int hev_task_timer_wait (HevTaskTimer *self, unsigned int milliseconds,
-                                  HevTask *task);
+uint64_t hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds,
+                              HevTask *task);
 
 #endif /* __HEV_TASK_TIMER_H__ */
-- 
2.43.0


From 68fc0e1d58738b800bb839a5c0e7fd2bc77dd7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:59 +0000
Subject: [PATCH 06/33] fix: report a channel as writable to its selector when
 a slot gets free

A writer's selector calls a channel writable while a write can complete
without waiting, i.e. while one slot besides the last is free. The reader
put it back on the list only when it took a message from a completely full
buffer, so after filling all but the last slot a selecting writer was never
told about free slots again.
---
 src/kern/itc/hev-task-channel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3855471..555ef6c 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -161,11 +161,11 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         size = cbuf->size;
     size = hev_task_channel_data_copy (buffer, cbuf->data, size);
 
-    if (self->use_count == self->max_count) {
+    if (self->use_count + 1 >= self->max_count) {
         HevTaskChannel *peer = self->peer;
 
         if (peer) {
-            if (peer->select)
+            if (peer->select && self->use_count < self->max_count)
                 hev_task_channel_select_add_write (peer->select, peer);
             if (peer->task)
                 hev_task_wakeup (peer->task);
-- 
2.43.0


From 5773d8216569c13a5e3af836cdf759fe789eee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:59 +0000
Subject: [PATCH 07/33] fix: forget the waiting task when a channel operation
 stops waiting

The task that waited for a channel stayed recorded in it. If that task had
ended by the time the peer wrote, read or was destroyed, the peer woke an
ended (or freed) task and the scheduler aborted.
---
 src/kern/itc/hev-task-channel.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 555ef6c..35ab9b2 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -136,6 +136,18 @@ hev_task_channel_data_copy (void *dst, const void *src, size_t size)
     return size;
 }
 
+static void
+hev_task_channel_wait (HevTaskChannel *self)
+{
+    HevTask *task = self->task;
+
+    WRITE_ONCE (self->task, hev_task_self ());
+    hev_task_yield (HEV_TASK_WAITIO);
+
+    if (READ_ONCE (self->task) == hev_task_self ())
+        self->task = task;
+}
+
 EXPORT_SYMBOL ssize_t
 hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
 {
@@ -148,8 +160,7 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -198,8 +209,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out1;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -235,8 +245,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
             break;
         }
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
-- 
2.43.0


From 3c0694c4356703218394771494eebfd6903021c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:20 +0000
Subject: [PATCH 08/33] fix: let operations end when their own channel end is
 destroyed

Destroying an end wakes a task that reads from or writes to that same end,
but the end stayed attached to its peer and its memory could be released
under the woken task, which then waited again for ever. Detach the end,
keep it alive until the operation has left it, and take back a buffer lent
to the reader of an unbuffered channel.
---
 src/kern/itc/hev-task-channel.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 35ab9b2..0c381d8 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -101,6 +101,7 @@ hev_task_channel_destroy (HevTaskChannel *self)
         self->peer->peer = NULL;
         if (self->peer->task)
             hev_task_wakeup (self->peer->task);
+        self->peer = NULL;
     }
     if (self->task)
         hev_task_wakeup (self->task);
@@ -154,6 +155,8 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
     HevTaskChannelBuffer *cbuf;
     ssize_t size = -1;
 
+    hev_task_channel_ref (self);
+
     /* wait on empty */
     while (!hev_task_channel_is_readable (self)) {
         /* check is peer alive because cond wait may yield */
@@ -188,6 +191,8 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         hev_task_channel_select_del_read (self->select, self);
 
 out:
+    hev_task_channel_unref (self);
+
     return size;
 }
 
@@ -201,6 +206,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
     if (!peer)
         goto out0;
 
+    hev_task_channel_ref (self);
     hev_task_channel_ref (peer);
 
     /* wait on full */
@@ -241,6 +247,12 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
     while (!hev_task_channel_is_writable (peer)) {
         /* check is peer alive because cond wait may yield */
         if (!hev_task_channel_is_active (self)) {
+            /* the buffer is no longer ours to lend */
+            if (peer->max_count == 1) {
+                peer->use_count = 0;
+                if (peer->select)
+                    hev_task_channel_select_del_read (peer->select, peer);
+            }
             size = -1;
             break;
         }
@@ -251,6 +263,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
     barrier ();
 out1:
     hev_task_channel_unref (peer);
+    hev_task_channel_unref (self);
 out0:
 
     return size;
-- 
2.43.0


From 1ffc39a87b649697934ff3d4fc1d7fd686e17185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:30 +0000
Subject: [PATCH 09/33] fix: compute the size of channel buffers without
 overflow

The sizes were computed in unsigned int, so a large slot size or number of
buffers allocated too little memory and slots overlapped or lay outside.
---
 src/kern/itc/hev-task-channel.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 0c381d8..cf76f76 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -28,13 +28,17 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
                                    unsigned int buffers)
 {
     HevTaskChannel *c1, *c2;
-    unsigned int buffers_size;
-    unsigned int data_size = 0;
+    size_t buffers_size;
+    size_t data_size = 0;
 
     buffers += 1;
-    if (buffers > 1)
-        data_size = size * buffers;
+    if (!buffers)
+        goto err0;
     buffers_size = sizeof (HevTaskChannelBuffer) * buffers;
+    if (buffers > 1 && __builtin_mul_overflow (size, buffers, &data_size))
+        goto err0;
+    if (data_size > (size_t)-1 - sizeof (HevTaskChannel) - buffers_size)
+        goto err0;
 
     c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
     if (!c1)
@@ -60,8 +64,10 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
         unsigned int i;
 
         for (i = 0; i < buffers; i++) {
-            c1->buffers[i].data = (void *)c1->buffers + buffers_size + size * i;
-            c2->buffers[i].data = (void *)c2->buffers + buffers_size + size * i;
+            size_t offset = buffers_size + (size_t)size * i;
+
+            c1->buffers[i].data = (void *)c1->buffers + offset;
+            c2->buffers[i].data = (void *)c2->buffers + offset;
         }
     }
 
-- 
2.43.0


From 1b9d20ed811afdb39bba396dc8c58811376f7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:02 +0000
Subject: [PATCH 10/33] fix: hand back address length, control length and flags
 from recvmsg

hev_task_io_socket_recvmsg receives into a private message header, so the
values the kernel reports in the header never reached the caller.  Copy
them back, and keep later parts of a complete receive from overwriting
the address and control data of the first one.
---
 src/lib/io/socket/hev-task-io-socket.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7ca7ca5..7eb8e6f 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -290,6 +290,12 @@ retry:
         goto retry;
     }
 
+    if (s >= 0 && !size) {
+        msg->msg_namelen = mh.msg_namelen;
+        msg->msg_controllen = mh.msg_controllen;
+        msg->msg_flags = mh.msg_flags;
+    }
+
     if (!(flags & MSG_WAITALL))
         return s;
 
@@ -313,6 +319,10 @@ retry:
 
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
+        mh.msg_name = NULL;
+        mh.msg_namelen = 0;
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
 
         goto retry;
     }
-- 
2.43.0


From 1eb76df09a1a238d80917f5efd1545d01c5e8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:02 +0000
Subject: [PATCH 11/33] fix: send control data only with the first part of a
 message

When a complete send needed several steps, every step passed the control
data again, so the receiver got e.g. each descriptor several times.
---
 src/lib/io/socket/hev-task-io-socket.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7eb8e6f..c70bac5 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -387,6 +387,8 @@ retry:
 
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
 
         goto retry;
     }
-- 
2.43.0


From 9db5560247a5bcc02e4132ccd23460a09dd518ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:02 +0000
Subject: [PATCH 12/33] fix: keep the caller's descriptor open when dup2 onto
 itself fails

dup2 of a descriptor onto itself creates nothing, so there is nothing to
close if it cannot be made non-blocking.
---
 src/lib/io/basic/hev-task-io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/basic/hev-task-io.c b/src/lib/io/basic/hev-task-io.c
index 51000f3..6a19cd4 100644
--- a/src/lib/io/basic/hev-task-io.c
+++ b/src/lib/io/basic/hev-task-io.c
@@ -114,7 +114,8 @@ hev_task_io_dup2 (int oldfd, int newfd)
         return -1;
 
     if (0 > ioctl (newfd, FIONBIO, (char *)&nonblock)) {
-        close (newfd);
+        if (newfd != oldfd)
+            close (newfd);
         return -2;
     }
 
-- 
2.43.0


From a15c2492ac94123cd17410bd9d9e4ae75d609e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:02 +0000
Subject: [PATCH 13/33] fix: do not wait for descriptors that cannot be watched

A regular file or an invalid descriptor cannot be registered for events.
hev_task_io_poll ignored that and waited for an event that never comes.
Ask the kernel at once in that case.
---
 src/lib/io/poll/hev-task-io-poll.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index d82421a..1c85ddd 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -15,7 +15,7 @@
 EXPORT_SYMBOL int
 hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
 {
-    int res;
+    int res = 0;
 
     if (timeout == 0) {
         res = poll (fds, nfds, 0);
@@ -24,20 +24,23 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
         unsigned int i;
 
         for (i = 0; i < nfds; i++) {
-            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0)
-                hev_task_add_fd (task, fds[i].fd, fds[i].events);
+            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0 &&
+                hev_task_add_fd (task, fds[i].fd, fds[i].events) < 0) {
+                /* no event will come for this one */
+                res = poll (fds, nfds, 0);
+            }
         }
 
         if (timeout > 0) {
-            do {
+            while (timeout > 0 && res == 0) {
                 timeout = hev_task_sleep (timeout);
                 res = poll (fds, nfds, 0);
-            } while (timeout > 0 && res == 0);
+            }
         } else {
-            do {
+            while (res == 0) {
                 hev_task_yield (HEV_TASK_WAITIO);
                 res = poll (fds, nfds, 0);
-            } while (res == 0);
+            }
         }
     }
 
-- 
2.43.0


From aaacb5d593e42516ea95c8c0f588793e96655297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:02 +0000
Subject: [PATCH 14/33] fix: close a descriptor used for both directions only
 once

---
 src/lib/cio/fd/hev-task-cio-fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 4d0ffb9..78ca7bf 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -126,7 +126,7 @@ _hev_task_cio_fd_destruct (HevObject *base)
 
     if (self->fdi >= 0)
         close (self->fdi);
-    if (self->fdo >= 0)
+    if (self->fdo >= 0 && self->fdo != self->fdi)
         close (self->fdo);
 
     HEV_TASK_CIO_TYPE->destruct (base);
-- 
2.43.0


From 41892c11728c802a9fc7a9d81d1f36c71d691402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:02 +0000
Subject: [PATCH 15/33] fix: refuse circular buffer sizes that cannot work

A size of zero made the position arithmetic divide by zero, and a size
near the maximum wrapped around to a block smaller than its header.
---
 src/lib/io/buffer/hev-circular-buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 4d78c1d..4979fcd 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -27,6 +27,9 @@ hev_circular_buffer_new (size_t max_size)
 {
     HevCircularBuffer *self;
 
+    if (!max_size || max_size > (size_t)-1 - sizeof (HevCircularBuffer))
+        return NULL;
+
     self = hev_malloc (sizeof (HevCircularBuffer) + max_size);
     if (!self)
         return NULL;
-- 
2.43.0


From 30d6d4764bcfa336d143ee55a1613749a70eaa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:44 +0000
Subject: [PATCH 16/33] fix: keep flushing held back bytes while splicing
 chains

hev_task_cio_splice flushed the output only right after writing to it and
ignored the result.  If the output could not take everything at that
moment, the rest stayed in the output's buffer for ever.  Flush on every
pass and do not count a direction as finished before that succeeded.
---
 src/lib/cio/base/hev-task-cio.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index f64cd73..f288003 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -426,6 +426,7 @@ retry:
 static int
 task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
 {
+    HevTaskCIOClass *okptr = HEV_OBJECT_GET_CLASS (o);
     struct iovec iov[2];
     int res = 1, iovc;
 
@@ -445,8 +446,7 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
 
     iovc = hev_circular_buffer_reading (buf, iov);
     if (iovc) {
-        HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (o);
-        ssize_t s = kptr->writev (o, iov, iovc);
+        ssize_t s = okptr->writev (o, iov, iovc);
         if (0 >= s) {
             if ((0 > s) && (o->err == EAGAIN))
                 res = 0;
@@ -454,11 +454,15 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
                 res = -1;
         } else {
             hev_circular_buffer_read_finish (buf, s);
-            kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);
             res = 1;
         }
     }
 
+    /* an output stage may hold back bytes until it can pass them on */
+    if (okptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL) < 0 &&
+        o->err == EAGAIN)
+        res = 0;
+
     return res;
 }
 
-- 
2.43.0


From 422901a8375df2d4964716956ae120cf3063fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:45 +0000
Subject: [PATCH 17/33] fix: fail to construct a buffering stage whose buffers
 are missing

Running out of memory for a buffer was ignored: the stage was handed out
as if it were complete but silently worked without the buffer asked for.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 1af7e63..f0bf591 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -292,10 +292,19 @@ hev_task_cio_buffer_construct (HevTaskCIOBuffer *self, size_t rsize,
 
     HEV_OBJECT (self)->klass = HEV_TASK_CIO_BUFFER_TYPE;
 
-    if (rsize)
+    if (rsize) {
         self->rbuf = hev_circular_buffer_new (rsize);
-    if (wsize)
+        if (!self->rbuf)
+            return -1;
+    }
+    if (wsize) {
         self->wbuf = hev_circular_buffer_new (wsize);
+        if (!self->wbuf) {
+            if (self->rbuf)
+                hev_circular_buffer_unref (self->rbuf);
+            return -1;
+        }
+    }
 
     return 0;
 }
-- 
2.43.0


From 5efef91ad4ecbc860d3d58fd3e2ab8935ee2533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:45 +0000
Subject: [PATCH 18/33] fix: releasing a chain drops its reference on the next
 stage

Destroying a stage ran the destructor of the next stage directly, so a
stage that somebody else still referenced was freed under them.
---
 src/lib/cio/base/hev-task-cio.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.h b/src/lib/cio/base/hev-task-cio.h
index 71979f6..3fb22a3 100644
--- a/src/lib/cio/base/hev-task-cio.h
+++ b/src/lib/cio/base/hev-task-cio.h
@@ -678,13 +678,11 @@ static inline void
 hev_task_cio_next_destruct (HevTaskCIO *self)
 {
     HevTaskCIO *next = self->next;
-    HevObjectClass *nkptr;
 
     if (!next)
         return;
 
-    nkptr = HEV_OBJECT_GET_CLASS (next);
-    nkptr->destruct (HEV_OBJECT (next));
+    hev_object_unref (HEV_OBJECT (next));
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From cc84b1af3d34b3296381cf55dc7ef03c8f17835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:59 +0000
Subject: [PATCH 19/33] fix: order releases of atomically counted objects
 before destruction

The relaxed decrement let the destroying thread miss what another thread
wrote before it released its reference.
---
 src/lib/object/hev-object-atomic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 4d93ba7..326e755 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -47,7 +47,7 @@ _hev_object_atomic_ref (HevObject *base, int ref)
         return;
     }
 
-    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_relaxed);
+    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_acq_rel);
     if (rc > 1)
         return;
 
-- 
2.43.0


From b8a350345078b9fa89547d61ab181b412f64f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:35 +0000
Subject: [PATCH 20/33] fix: an empty vector element does not end a buffered
 vector transfer

A leading zero-length element made the buffering stage's vector read and
write return 0, which callers take for the end of the stream.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index f0bf591..a36a9f4 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -219,6 +219,9 @@ _hev_task_cio_buffer_readv (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
@@ -249,6 +252,9 @@ _hev_task_cio_buffer_writev (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
-- 
2.43.0


From 6f628f9f996a9d69037952271bbb1aa713250bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:33 +0000
Subject: [PATCH 21/33] fix: close the reactor's descriptor when its flags
 cannot be set

---
 src/kern/io/hev-task-io-reactor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/io/hev-task-io-reactor.c b/src/kern/io/hev-task-io-reactor.c
index 8abf1d3..4f0d698 100644
--- a/src/kern/io/hev-task-io-reactor.c
+++ b/src/kern/io/hev-task-io-reactor.c
@@ -32,12 +32,14 @@ hev_task_io_reactor_new (void)
 
     flags = fcntl (self->fd, F_GETFD);
     if (flags < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
 
     flags |= FD_CLOEXEC;
     if (fcntl (self->fd, F_SETFD, flags) < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
-- 
2.43.0


From d81ccbad3b852db939c69d92845b618340b76d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:36 +0000
Subject: [PATCH 22/33] fix: notice that the thread's context could not be
 stored

pthread_setspecific reports failure with a positive error number.
---
 src/kern/core/hev-task-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 10f5761..25b20fe 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -62,7 +62,7 @@ hev_task_system_init (void)
     if (!context)
         goto exit;
 
-    if (hev_task_system_set_context (context) < 0)
+    if (hev_task_system_set_context (context) != 0)
         goto free_context;
 
     context->reactor = hev_task_io_reactor_new ();
-- 
2.43.0


From 48ee34ad607c42d902cd6db7a0b3036724ee4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:38 +0000
Subject: [PATCH 23/33] fix: keep the thread's allocator when initialisation
 fails

Initialising a running system again, or failing to initialise, replaced the
allocator that live memory of the thread came from.
---
 src/kern/core/hev-task-system.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 25b20fe..d2366db 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -44,23 +44,22 @@ EXPORT_SYMBOL int
 hev_task_system_init (void)
 {
     HevMemoryAllocator *allocator = NULL;
+    HevMemoryAllocator *old_allocator;
     HevTaskSystemContext *context;
 
-#ifdef ENABLE_MEMALLOC_SLICE
-    allocator = hev_memory_allocator_slice_new ();
-#endif
-    allocator = hev_memory_allocator_set_default (allocator);
-    if (allocator)
-        hev_memory_allocator_unref (allocator);
-
     pthread_once (&key_once, pthread_key_creator);
 
     if (hev_task_system_get_context ())
         goto exit;
 
+#ifdef ENABLE_MEMALLOC_SLICE
+    allocator = hev_memory_allocator_slice_new ();
+#endif
+    old_allocator = hev_memory_allocator_set_default (allocator);
+
     context = hev_malloc0 (sizeof (HevTaskSystemContext));
     if (!context)
-        goto exit;
+        goto rest_allocator;
 
     if (hev_task_system_set_context (context) != 0)
         goto free_context;
@@ -77,6 +76,9 @@ hev_task_system_init (void)
     if (!context->stack_detector)
         goto free_timer;
 
+    if (old_allocator)
+        hev_memory_allocator_unref (old_allocator);
+
     return 0;
 
 free_timer:
@@ -87,6 +89,10 @@ rest_context:
     hev_task_system_set_context (NULL);
 free_context:
     hev_free (context);
+rest_allocator:
+    allocator = hev_memory_allocator_set_default (old_allocator);
+    if (allocator)
+        hev_memory_allocator_unref (allocator);
 exit:
     return -1;
 }
-- 
2.43.0


From ebe45a7b1f37e498451e571f7bc55ac6c658e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:26 +0000
Subject: [PATCH 24/33] fix: undo signal handlers and stack when the stack
 detector fails

---
 src/lib/misc/hev-task-stack-detector.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index ee0e55c..2f181e4 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -82,7 +82,6 @@ hev_task_stack_detector_new (void)
 {
     HevTaskStackDetector *self;
     struct sigaction sa;
-    int res = 0;
     stack_t ss;
 
     self = malloc (sizeof (HevTaskStackDetector));
@@ -97,14 +96,19 @@ hev_task_stack_detector_new (void)
     sa.sa_sigaction = signal_handler;
     sigemptyset (&sa.sa_mask);
 
-    res |= setaltstack (&ss, &self->oss);
-    res |= sigaction (SIGBUS, &sa, &self->bus_sa);
-    res |= sigaction (SIGSEGV, &sa, &self->segv_sa);
-    if (res < 0)
+    if (setaltstack (&ss, &self->oss) < 0)
         goto free;
+    if (sigaction (SIGBUS, &sa, &self->bus_sa) < 0)
+        goto rest_stack;
+    if (sigaction (SIGSEGV, &sa, &self->segv_sa) < 0)
+        goto rest_bus;
 
     return self;
 
+rest_bus:
+    sigaction (SIGBUS, &self->bus_sa, NULL);
+rest_stack:
+    setaltstack (&self->oss, NULL);
 free:
     free (self);
 exit:
-- 
2.43.0


From 35445e85df49aa3ae9c3de82236f52452c397fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:28 +0000
Subject: [PATCH 25/33] fix: fail array allocations whose size does not fit

---
 src/mem/api/hev-memory-allocator-api.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index cdc5b25..3097e49 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -7,6 +7,7 @@
  ============================================================================
  */
 
+#include <stdint.h>
 #include <string.h>
 
 #include "lib/misc/hev-compiler.h"
@@ -45,6 +46,9 @@ hev_calloc (size_t nmemb, size_t size)
     if (!nmemb || !size)
         return NULL;
 
+    if (size > SIZE_MAX / nmemb)
+        return NULL;
+
     size *= nmemb;
     allocator = hev_memory_allocator_default ();
     data = hev_memory_allocator_alloc (allocator, size);
-- 
2.43.0


From 49f15d93b21b4d642365b133d91753810ca7b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:31 +0000
Subject: [PATCH 26/33] fix: never take a huge request for a small slice

The number of the size class was truncated, and resizing to a size that
cannot be rounded up returned an empty block.
---
 src/mem/slice/hev-memory-allocator-slice.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 4e14210..0bb8440 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -88,7 +88,7 @@ _hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)
 {
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice, **owner;
-    int index;
+    size_t index;
 
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
@@ -140,7 +140,7 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
                                size_t size)
 {
     HevMemorySlice *slice;
-    int index;
+    size_t index;
 
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
@@ -149,6 +149,8 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
 
     slice = (HevMemorySlice *)ptr - 1;
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
+    if (0 == size)
+        return NULL;
     index = size / CACHED_SLICE_ALIGN;
 
     slice = realloc (slice, sizeof (HevMemorySlice) + size);
-- 
2.43.0


From 3705a5b96626827d9f3cf00b55aaaa0c20231dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:33 +0000
Subject: [PATCH 27/33] fix: free and resize no memory with slices like with
 plain memory

Both crashed on a null pointer, which the plain allocator accepts.
---
 src/mem/slice/hev-memory-allocator-slice.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 0bb8440..0856e0e 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -142,6 +142,9 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
     HevMemorySlice *slice;
     size_t index;
 
+    if (!ptr)
+        return _hev_memory_allocator_alloc (allocator, size);
+
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
         return NULL;
@@ -180,6 +183,9 @@ _hev_memory_allocator_free (HevMemoryAllocator *allocator, void *ptr)
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice = (HevMemorySlice *)ptr - 1;
 
+    if (!ptr)
+        return;
+
     if (slice->index < 0) {
         free (slice);
         return;
-- 
2.43.0


From 93a924c24f2b0832c6027321d4923cfaf0ae5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:55 +0000
Subject: [PATCH 28/33] fix: report a heap stack that cannot be allocated

Marking its overflow area wrote to address 0.
---
 src/kern/task/hev-task-stack-heap.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kern/task/hev-task-stack-heap.c b/src/kern/task/hev-task-stack-heap.c
index 63d9ffc..e8cb87e 100644
--- a/src/kern/task/hev-task-stack-heap.c
+++ b/src/kern/task/hev-task-stack-heap.c
@@ -8,6 +8,7 @@
  */
 
 #include <assert.h>
+#include <stddef.h>
 #include <stdint.h>
 
 #include "lib/misc/hev-compiler.h"
@@ -70,9 +71,10 @@ hev_task_stack_new (int size)
 
     size += STACK_OVERFLOW_DETECTION_SIZE;
     self = hev_malloc (sizeof (HevTaskStack) + size);
-    if (self)
-        self->size = size;
+    if (!self)
+        return NULL;
 
+    self->size = size;
     hev_task_stack_detection_mark (self);
     return self;
 }
-- 
2.43.0


From 97e0ba2af46f13a28e0e2a864a0f6e97a5886512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:57 +0000
Subject: [PATCH 29/33] fix: give heap stacks the size asked for

The header and the alignment of the upper end were taken from the stack.
---
 src/kern/task/hev-task-stack-heap.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kern/task/hev-task-stack-heap.c b/src/kern/task/hev-task-stack-heap.c
index e8cb87e..f826193 100644
--- a/src/kern/task/hev-task-stack-heap.c
+++ b/src/kern/task/hev-task-stack-heap.c
@@ -31,6 +31,8 @@
 #define STACK_OVERFLOW_DETECTION_SIZE (0)
 #endif
 
+#define STACK_ALIGN (16)
+
 struct _HevTaskStack
 {
     int size;
@@ -69,7 +71,7 @@ hev_task_stack_new (int size)
 {
     HevTaskStack *self;
 
-    size += STACK_OVERFLOW_DETECTION_SIZE;
+    size += STACK_OVERFLOW_DETECTION_SIZE + STACK_ALIGN;
     self = hev_malloc (sizeof (HevTaskStack) + size);
     if (!self)
         return NULL;
@@ -95,7 +97,7 @@ hev_task_stack_get_base (HevTaskStack *self)
 void *
 hev_task_stack_get_bottom (HevTaskStack *self)
 {
-    return (void *)ALIGN_DOWN ((intptr_t)self + self->size, 16);
+    return (void *)ALIGN_DOWN ((intptr_t)(self + 1) + self->size, STACK_ALIGN);
 }
 
 #endif /* CONFIG_STACK_BACKEND == STACK_HEAP */
-- 
2.43.0


From d67226bb81cb1a48fef96739bf37d5ed0aeeea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:53 +0000
Subject: [PATCH 30/33] fix: report whether the helper thread could be started

A failing thread creation or reactor went unnoticed, and of two threads
starting the helper at once one was told that it failed.
---
 src/kern/aide/hev-task-aide.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index 95bc00c..7fc7dd5 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -22,15 +22,20 @@ static pthread_t thread;
 static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
+static int started;
 
 static void *
 hev_task_aide_entry (void *data)
 {
     pthread_mutex_lock (&mutex);
     reactor = hev_task_io_reactor_new ();
+    started = 1;
     pthread_cond_signal (&cond);
     pthread_mutex_unlock (&mutex);
 
+    if (!reactor)
+        return NULL;
+
     for (;;) {
         HevTaskIOReactorWaitEvent events[256];
         int i, count;
@@ -54,18 +59,19 @@ hev_task_aide_entry (void *data)
 int
 hev_task_aide_init (void)
 {
-    int res = -1;
-
-    if (reactor)
-        return 0;
+    int res = 0;
 
     pthread_mutex_lock (&mutex);
     if (!reactor) {
+        started = 0;
         res = pthread_create (&thread, NULL, hev_task_aide_entry, NULL);
         if (0 == res) {
-            while (!reactor)
+            while (!started)
                 pthread_cond_wait (&cond, &mutex);
+            if (!reactor)
+                pthread_join (thread, NULL);
         }
+        res = reactor ? 0 : -1;
     }
     pthread_mutex_unlock (&mutex);
 
-- 
2.43.0


From 9a59d4ccd4b909d26702321e5d7e81e72e306355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:07 +0000
Subject: [PATCH 31/33] fix: do not handle works of the helper thread that were
 deleted

---
 src/kern/aide/hev-task-aide.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index 7fc7dd5..3075ca4 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -21,6 +21,7 @@
 static pthread_t thread;
 static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_mutex_t work_mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
 static int started;
 
@@ -38,9 +39,16 @@ hev_task_aide_entry (void *data)
 
     for (;;) {
         HevTaskIOReactorWaitEvent events[256];
+        struct pollfd pfd;
         int i, count;
 
-        count = hev_task_io_reactor_wait (reactor, events, 256, -1);
+        pfd.fd = hev_task_io_reactor_get_fd (reactor);
+        pfd.events = POLLIN;
+        poll (&pfd, 1, -1);
+
+        /* works are not deleted from fetching until handled */
+        pthread_mutex_lock (&work_mutex);
+        count = hev_task_io_reactor_wait (reactor, events, 256, 0);
 
         for (i = 0; i < count; i++) {
             HevTaskAideWork *work;
@@ -51,6 +59,7 @@ hev_task_aide_entry (void *data)
 
             work->handler (revents, work->data);
         }
+        pthread_mutex_unlock (&work_mutex);
     }
 
     return NULL;
@@ -95,9 +104,14 @@ hev_task_aide_del (HevTaskAideWork *work)
 {
     HevTaskIOReactorSetupEvent revents[HEV_TASK_IO_REACTOR_EVENT_GEN_MAX];
     int count;
+    int res;
 
     count = hev_task_io_reactor_setup_event_gen (
         revents, work->fd, HEV_TASK_IO_REACTOR_OP_DEL, 0, NULL);
 
-    return hev_task_io_reactor_setup (reactor, revents, count);
+    pthread_mutex_lock (&work_mutex);
+    res = hev_task_io_reactor_setup (reactor, revents, count);
+    pthread_mutex_unlock (&work_mutex);
+
+    return res;
 }
-- 
2.43.0


From 9df4ca4886041ef40a9f8fcb62743f4b8bcd029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:23 +0000
Subject: [PATCH 32/33] fix: fail a lookup whose request cannot be sent

---
 src/lib/dns/hev-task-dns-proxy.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib/dns/hev-task-dns-proxy.c b/src/lib/dns/hev-task-dns-proxy.c
index 3310e5d..d7cbb35 100644
--- a/src/lib/dns/hev-task-dns-proxy.c
+++ b/src/lib/dns/hev-task-dns-proxy.c
@@ -190,6 +190,8 @@ hev_task_dns_proxy_destroy (HevTaskDNSProxy *self)
 static void
 hev_task_dns_proxy_call (HevTaskDNSProxy *self, HevTaskDNSCall *call)
 {
+    int res;
+
     hev_task_mutex_lock (&self->mutex);
 
     self->call = call;
@@ -197,17 +199,17 @@ hev_task_dns_proxy_call (HevTaskDNSProxy *self, HevTaskDNSCall *call)
 
     for (;;) {
         char sync = 's';
-        int res = write (self->fd, &sync, sizeof (sync));
+        res = write (self->fd, &sync, sizeof (sync));
         if ((0 <= res) || (EAGAIN != errno))
             break;
 
         hev_task_yield (HEV_TASK_WAITIO);
     }
 
-    for (;;) {
+    while (0 < res) {
         char sync;
-        int res = read (self->fd, &sync, sizeof (sync));
-        if ((0 <= res) || (EAGAIN != errno))
+        int len = read (self->fd, &sync, sizeof (sync));
+        if ((0 <= len) || (EAGAIN != errno))
             break;
 
         hev_task_yield (HEV_TASK_WAITIO);
@@ -231,7 +233,8 @@ hev_task_dns_proxy_getaddrinfo (HevTaskDNSProxy *self, const char *node,
     gai.service = service;
     gai.hints = hints;
     gai.res = res;
-    gai.ret = -1;
+    gai.err = EIO;
+    gai.ret = EAI_SYSTEM;
 
     hev_task_dns_proxy_call (self, &gai.base);
 
@@ -255,7 +258,8 @@ hev_task_dns_proxy_getnameinfo (HevTaskDNSProxy *self,
     gni.service = service;
     gni.servicelen = servicelen;
     gni.flags = flags;
-    gni.ret = -1;
+    gni.err = EIO;
+    gni.ret = EAI_SYSTEM;
 
     hev_task_dns_proxy_call (self, &gni.base);
 
-- 
2.43.0


From e9775ac067148cf2709f2e55d9e28fa4299a740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:17 +0000
Subject: [PATCH 33/33] fix: build method tables once, whole, before any thread
 uses them

---
 src/lib/cio/base/hev-task-cio.c          | 21 ++++++++++++------
 src/lib/cio/buffer/hev-task-cio-buffer.c | 21 ++++++++++++------
 src/lib/cio/fd/hev-task-cio-fd.c         | 21 ++++++++++++------
 src/lib/cio/null/hev-task-cio-null.c     | 21 ++++++++++++------
 src/lib/cio/socket/hev-task-cio-socket.c | 21 ++++++++++++------
 src/lib/object/hev-object-atomic.c       | 28 +++++++++++++++---------
 src/lib/object/hev-object.c              | 25 ++++++++++++++-------
 7 files changed, 105 insertions(+), 53 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index f288003..00848a0 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -547,16 +548,14 @@ _hev_task_cio_destruct (HevObject *base)
     HEV_OBJECT_TYPE->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_class (void)
+static HevTaskCIOClass klass;
+
+static void
+hev_task_cio_class_init (void)
 {
-    static HevTaskCIOClass klass;
     HevTaskCIOClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
 
     okptr->name = "HevTaskCIO";
@@ -571,6 +570,14 @@ hev_task_cio_class (void)
     kptr->readv_dgram = hev_task_cio_next_readv_dgram;
     kptr->writev_dgram = hev_task_cio_next_writev_dgram;
     kptr->ctrl = hev_task_cio_next_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, hev_task_cio_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index a36a9f4..bef4e9b 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -329,17 +330,15 @@ _hev_task_cio_buffer_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_buffer_class (void)
+static HevTaskCIOBufferClass klass;
+
+static void
+hev_task_cio_buffer_class_init (void)
 {
-    static HevTaskCIOBufferClass klass;
     HevTaskCIOBufferClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOBuffer";
@@ -351,6 +350,14 @@ hev_task_cio_buffer_class (void)
     ckptr->readv = _hev_task_cio_buffer_readv;
     ckptr->writev = _hev_task_cio_buffer_writev;
     ckptr->ctrl = _hev_task_cio_buffer_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_buffer_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, hev_task_cio_buffer_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 78ca7bf..6b66ff1 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 #include <unistd.h>
 
 #include "kern/task/hev-task.h"
@@ -133,17 +134,15 @@ _hev_task_cio_fd_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_fd_class (void)
+static HevTaskCIOFdClass klass;
+
+static void
+hev_task_cio_fd_class_init (void)
 {
-    static HevTaskCIOFdClass klass;
     HevTaskCIOFdClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOFd";
@@ -155,6 +154,14 @@ hev_task_cio_fd_class (void)
     ckptr->readv = _hev_task_cio_fd_readv;
     ckptr->writev = _hev_task_cio_fd_writev;
     ckptr->ctrl = _hev_task_cio_fd_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_fd_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, hev_task_cio_fd_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/null/hev-task-cio-null.c b/src/lib/cio/null/hev-task-cio-null.c
index c185e80..318390c 100644
--- a/src/lib/cio/null/hev-task-cio-null.c
+++ b/src/lib/cio/null/hev-task-cio-null.c
@@ -8,6 +8,7 @@
  */
 
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -130,17 +131,15 @@ _hev_task_cio_null_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_null_class (void)
+static HevTaskCIONullClass klass;
+
+static void
+hev_task_cio_null_class_init (void)
 {
-    static HevTaskCIONullClass klass;
     HevTaskCIONullClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIONull";
@@ -156,6 +155,14 @@ hev_task_cio_null_class (void)
     ckptr->readv_dgram = _hev_task_cio_null_readv_dgram;
     ckptr->writev_dgram = _hev_task_cio_null_writev_dgram;
     ckptr->ctrl = _hev_task_cio_null_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_null_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, hev_task_cio_null_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/socket/hev-task-cio-socket.c b/src/lib/cio/socket/hev-task-cio-socket.c
index 02271a4..bd02011 100644
--- a/src/lib/cio/socket/hev-task-cio-socket.c
+++ b/src/lib/cio/socket/hev-task-cio-socket.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 #include <unistd.h>
 #include <netinet/in.h>
 #include <sys/socket.h>
@@ -214,17 +215,15 @@ _hev_task_cio_socket_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_socket_class (void)
+static HevTaskCIOSocketClass klass;
+
+static void
+hev_task_cio_socket_class_init (void)
 {
-    static HevTaskCIOSocketClass klass;
     HevTaskCIOSocketClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOSocket";
@@ -240,6 +239,14 @@ hev_task_cio_socket_class (void)
     ckptr->readv_dgram = _hev_task_cio_socket_readv_dgram;
     ckptr->writev_dgram = _hev_task_cio_socket_writev_dgram;
     ckptr->ctrl = _hev_task_cio_socket_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_socket_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, hev_task_cio_socket_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 326e755..edce356 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -8,6 +8,7 @@
  */
 
 #include <string.h>
+#include <pthread.h>
 #include <stdatomic.h>
 
 #include "lib/misc/hev-compiler.h"
@@ -54,20 +55,27 @@ _hev_object_atomic_ref (HevObject *base, int ref)
     kptr->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_object_atomic_class (void)
+static HevObjectAtomicClass klass;
+
+static void
+hev_object_atomic_class_init (void)
 {
-    static HevObjectAtomicClass klass;
     HevObjectAtomicClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
 
-    if (!okptr->name) {
-        memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
+    memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
 
-        okptr->name = "HevObjectAtomic";
-        okptr->destruct = _hev_object_atomic_destruct;
-        okptr->ref = _hev_object_atomic_ref;
-    }
+    okptr->name = "HevObjectAtomic";
+    okptr->destruct = _hev_object_atomic_destruct;
+    okptr->ref = _hev_object_atomic_ref;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_object_atomic_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, hev_object_atomic_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/object/hev-object.c b/src/lib/object/hev-object.c
index 910cd2f..4480134 100644
--- a/src/lib/object/hev-object.c
+++ b/src/lib/object/hev-object.c
@@ -7,6 +7,8 @@
  ============================================================================
  */
 
+#include <pthread.h>
+
 #include "lib/misc/hev-compiler.h"
 
 #include "hev-object.h"
@@ -42,17 +44,24 @@ _hev_object_ref (HevObject *self, int ref)
     kptr->destruct (self);
 }
 
+static HevObjectClass klass;
+
+static void
+hev_object_class_init (void)
+{
+    HevObjectClass *kptr = &klass;
+
+    kptr->name = "HevObject";
+    kptr->destruct = _hev_object_destruct;
+    kptr->ref = _hev_object_ref;
+}
+
 EXPORT_SYMBOL HevObjectClass *
 hev_object_class (void)
 {
-    static HevObjectClass klass;
-    HevObjectClass *kptr = &klass;
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
 
-    if (!kptr->name) {
-        kptr->name = "HevObject";
-        kptr->destruct = _hev_object_destruct;
-        kptr->ref = _hev_object_ref;
-    }
+    pthread_once (&once, hev_object_class_init);
 
-    return kptr;
+    return &klass;
 }
-- 
2.43.0

