From e761c2df5cc483199927348df517f67e3b3591b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 01/21] fix: FC-Queue enqueues its argument and dequeues the
 oldest element (EMPTY_QUEUE when empty)

---
 libconcurrent/concurrent/fcqueue.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index b5d0faf..4877788 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -39,18 +39,17 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
 
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
     FCQueueStruct *st = (FCQueueStruct *)state;
-    Node *node = (Node *)st->first;
-    
+
     if (st->first->next != NULL){
         st->first = st->first->next;
-        return node->val;
+        return st->first->val;
     } else {
-        return -1;
+        return EMPTY_QUEUE;
     }
 }
 
 void FCQueueApplyEnqueue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, ArgVal arg, int pid) {
-    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) pid, pid);
+    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) arg, pid);
 }
 
 RetVal FCQueueApplyDequeue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, int pid) {
-- 
2.43.0


From a0a3cdecd433ed618c0df77d62b935cd638dff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 02/21] fix: FC-Stack pop returns EMPTY_STACK on an empty stack

---
 libconcurrent/concurrent/fcstack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index 9d58279..f0c88f1 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -26,7 +26,7 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         if (st->top != NULL) {
             st->top = st->top->next;
             return node->val;
-        } else return -1;
+        } else return EMPTY_STACK;
     } else {
         FCStackStruct *st = (FCStackStruct *)state;
         Node *node;
-- 
2.43.0


From ce5b050fb73a72af4cf81536b1c4196046bd82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 03/21] fix: combining stacks use the reserved GUARD_VALUE as
 pop opcode, so that INT_MIN can be pushed

---
 libconcurrent/concurrent/ccstack.c   | 2 +-
 libconcurrent/concurrent/dsmstack.c  | 2 +-
 libconcurrent/concurrent/fcstack.c   | 2 +-
 libconcurrent/concurrent/hstack.c    | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/ccstack.c b/libconcurrent/concurrent/ccstack.c
index 03f49f1..abf9a8f 100644
--- a/libconcurrent/concurrent/ccstack.c
+++ b/libconcurrent/concurrent/ccstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void CCStackInit(CCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/dsmstack.c b/libconcurrent/concurrent/dsmstack.c
index e5fad18..231294e 100644
--- a/libconcurrent/concurrent/dsmstack.c
+++ b/libconcurrent/concurrent/dsmstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void DSMSStackInit(DSMStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index f0c88f1..382e181 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -4,7 +4,7 @@
 #include <pool.h>
 #include <queue-stack.h>
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCStackInit(FCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/hstack.c b/libconcurrent/concurrent/hstack.c
index 9a382da..ba9371b 100644
--- a/libconcurrent/concurrent/hstack.c
+++ b/libconcurrent/concurrent/hstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void HStackInit(HStackStruct *stack_object_struct, uint32_t nthreads, uint32_t numa_nodes) {
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index e4193b4..08e06d6 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-- 
2.43.0


From 5921e82decf3d021f7fe870c199b60d7902722c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 04/21] fix: hash tables do not drop the first node of a bucket
 when deleting the second one

---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index b053460..dab189a 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -74,7 +74,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index b3ac042..6789356 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -77,7 +77,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
-- 
2.43.0


From f9e4b8b8fde08938ca4b724d7eb1ac69d74ef3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 05/21] fix: hash tables map negative keys to a valid bucket

---
 libconcurrent/concurrent/clhhash.c | 4 +++-
 libconcurrent/concurrent/dsmhash.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index dab189a..ba1ab50 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -25,7 +25,9 @@ inline void CLHHashThreadStateInit(CLHHash *hash, CLHHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(CLHHash *hash, int64_t key) {
-    return key % hash->size;
+    int64_t cell = key % hash->size;
+
+    return cell < 0 ? cell + hash->size : cell;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 6789356..64804a6 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -29,7 +29,9 @@ inline void DSMHashThreadStateInit(DSMHash *hash, DSMHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(DSMHash *hash, int64_t key) {
-    return key % hash->size;
+    int64_t cell = key % hash->size;
+
+    return cell < 0 ? cell + hash->size : cell;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
-- 
2.43.0


From 6659dee412cbccf4e7336e76f59a74e39fa9a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 06/21] fix: hash table insert updates the value of an existing
 key, as documented

---
 libconcurrent/concurrent/clhhash.c | 1 +
 libconcurrent/concurrent/dsmhash.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index ba1ab50..23485a1 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -50,6 +50,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
 
         while (cur != NULL && found == false) {
             if (cur->key == key) {
+                cur->value = value;
                 found = true;
                 break;
             }
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 64804a6..6852376 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -53,6 +53,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
 
         while (cur != NULL && found == false) {
             if (cur->key == key) {
+                cur->value = value;
                 found = true;
                 break;
             }
-- 
2.43.0


From 712b9edd739abad0df16ce4b35c726075dba24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 07/21] fix: flat combining passes the pid of the requesting
 thread to the serial function

---
 libconcurrent/concurrent/fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fc.c b/libconcurrent/concurrent/fc.c
index 316331f..e3473b6 100644
--- a/libconcurrent/concurrent/fc.c
+++ b/libconcurrent/concurrent/fc.c
@@ -82,7 +82,7 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
     for (i = 0; i < FC_COMBINING_ROUNDS; i++) {
         for (cur = lock->head; cur != NULL; cur = cur->next) {
             if (cur->pending) {
-                cur->val = sfunc(state, cur->val, pid);
+                cur->val = sfunc(state, cur->val, (int)((FCRequest *)cur - lock->nodes));
                 synchNonTSOFence();
                 cur->pending = false;
                 cur->age = count;
-- 
2.43.0


From 76c050a600f67c2cf0221cbe180eaa2876e7f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 08/21] fix: SimQueue copies of the dequeue state keep their
 own array of return values

---
 libconcurrent/includes/simqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/simqueue.h b/libconcurrent/includes/simqueue.h
index b0deecc..7de3612 100644
--- a/libconcurrent/includes/simqueue.h
+++ b/libconcurrent/includes/simqueue.h
@@ -41,12 +41,12 @@ typedef struct EnqState {
 typedef struct DeqState {
     /// @brief The applied vector of toggles.
     ToggleVector applied;
+    /// @brief A pointer to the array of return values. Each DeqState has its own array, thus this field is never copied.
+    RetVal *ret;
     /// @brief In case you want to copy this struct, start from here.
     uint64_t copy_point;
     /// @brief A pointer to the head of the queue.
     Node *head;
-    /// @brief A pointer to the array of return values.
-    RetVal *ret;
 #ifdef DEBUG
     int32_t counter;
 #endif
-- 
2.43.0


From 087aa32326badf6ea3c4a4e1c1bf2f1ded2e1a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 09/21] fix: synchGetAlignedMemory detects allocation failures
 and keeps already aligned memory, so that it can be freed

---
 libconcurrent/primitives/primitives.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 377f726..a782c8f 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -160,10 +160,12 @@ inline void *synchGetAlignedMemory(size_t align, size_t size) {
 
 #ifdef SYNCH_NUMA_SUPPORT
     p = numa_alloc_local(size + align);
-    long plong = (long)p;
-    plong += align;
-    plong &= ~(align - 1);
-    p = (void *)plong;
+    if (p != NULL) {
+        long plong = (long)p;
+        plong += align - 1;
+        plong &= ~(align - 1);
+        p = (void *)plong;
+    }
 #else
     p = (void *)memalign(align, size);
 #endif
-- 
2.43.0


From 7d4e47cc84825a61dbe23d73f200816d66a16123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 10/21] fix: Osci computes the combining points from the number
 of fibers that is actually used

---
 libconcurrent/concurrent/osci.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/osci.c b/libconcurrent/concurrent/osci.c
index e56672e..d307a28 100644
--- a/libconcurrent/concurrent/osci.c
+++ b/libconcurrent/concurrent/osci.c
@@ -130,7 +130,7 @@ void OsciInit(OsciStruct *l, uint32_t nthreads, uint32_t fibers_per_thread) {
         l->fibers_per_thread = fibers_per_thread;
     else
         l->fibers_per_thread = 1;
-    l->groups_of_fibers = (nthreads / fibers_per_thread) + (nthreads % fibers_per_thread != 0 ? 1 : 0);
+    l->groups_of_fibers = (nthreads / l->fibers_per_thread) + (nthreads % l->fibers_per_thread != 0 ? 1 : 0);
 #ifdef DEBUG
     l->rounds = l->counter = 0;
 #endif
-- 
2.43.0


From d001b91bcff106d805b472cbc7738eee8baa4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 11/21] fix: Osci stack and queue have one pool for each of the
 fibers

---
 libconcurrent/concurrent/osciqueue.c | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index 0e43ece..8ba0ee1 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -7,7 +7,7 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 void OsciQueueInit(OsciQueueStruct *queue_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(queue_object_struct->enqueue_struct), nthreads, fibers_per_thread);
     OsciInit(&queue_object_struct->dequeue_struct, nthreads, fibers_per_thread);
-    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, queue_object_struct->enqueue_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index 08e06d6..e27afed 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -7,7 +7,7 @@ static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, stack_object_struct->object_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     stack_object_struct->top = NULL;
 }
 
-- 
2.43.0


From e050c0a403e8241086cfc162f451b4dd23ed97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 12/21] fix: H-Synch never uses a NUMA node or a request node
 that does not exist

---
 libconcurrent/concurrent/hsynch.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index bb58103..342ad76 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -98,18 +98,20 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     node_of_thread = pid / l->numa_node_size;
 #endif
 
+    // The threads are not always evenly placed in the NUMA nodes, e.g. all of them may run in a single one
+    node_of_thread %= l->numa_nodes;
     if (l->nodes[node_of_thread] == NULL) {
-        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->numa_node_size + 2) * sizeof(HSynchNode));
+        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->nthreads + 2) * sizeof(HSynchNode));
 
-        last_node = &ptr[l->numa_node_size + 1];
+        last_node = &ptr[l->nthreads + 1];
         last_node->next = NULL;
         last_node->locked = false;
         last_node->completed = false;
 
         if (synchCASPTR(&l->nodes[node_of_thread], NULL, ptr) == false) 
-            synchFreeMemory(ptr, (l->numa_node_size + 2) * sizeof(HSynchNode));
+            synchFreeMemory(ptr, (l->nthreads + 2) * sizeof(HSynchNode));
     }
-    last_node = l->nodes[node_of_thread] + l->numa_node_size + 1;
+    last_node = l->nodes[node_of_thread] + l->nthreads + 1;
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
     st_thread->next_node = l->nodes[node_of_thread] + node_index;
-- 
2.43.0


From 19e7d373812b1ee1d59d8cd17009582a1e0a2e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 13/21] fix: H-Synch threads may use instances with different
 amounts of NUMA nodes

---
 libconcurrent/concurrent/hsynch.c | 6 +++---
 libconcurrent/includes/hsynch.h   | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index 342ad76..8965029 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -10,8 +10,6 @@
 #define HSYNCH_HELP_FACTOR            10
 #define HSYNCH_DEFAULT_NUMA_NODE_SIZE 8
 
-static __thread int node_of_thread = 0;
-
 RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfunc)(void *, ArgVal, int), void *state, ArgVal arg, int pid) {
     volatile HSynchNode *p;
     volatile HSynchNode *cur;
@@ -24,7 +22,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
     next_node->locked = true;
     next_node->completed = false;
 
-    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[node_of_thread].ptr, next_node);
+    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[st_thread->numa_node].ptr, next_node);
     cur->arg_ret = arg;
     cur->pid = pid;
     cur->next = (HSynchNode *)next_node;
@@ -71,6 +69,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
 void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pid) {
     HSynchNode *last_node = NULL;
     uint32_t node_index = 0;
+    int node_of_thread = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
     if (l->numa_policy) {
@@ -100,6 +99,7 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
 
     // The threads are not always evenly placed in the NUMA nodes, e.g. all of them may run in a single one
     node_of_thread %= l->numa_nodes;
+    st_thread->numa_node = node_of_thread;
     if (l->nodes[node_of_thread] == NULL) {
         HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->nthreads + 2) * sizeof(HSynchNode));
 
diff --git a/libconcurrent/includes/hsynch.h b/libconcurrent/includes/hsynch.h
index 69df39f..f1717d8 100644
--- a/libconcurrent/includes/hsynch.h
+++ b/libconcurrent/includes/hsynch.h
@@ -62,6 +62,8 @@ typedef union HSynchNodePtr {
 typedef struct HSynchThreadState {
     /// @brief pointer to an empty request that would be used for announcing future requests.
     HSynchNode *next_node;
+    /// @brief The NUMA node that the current instance of HSynch has assigned to the thread.
+    int32_t numa_node;
 } HSynchThreadState;
 
 ///  @brief HSynchStruct stores the state of an instance of the a HSynch combining object.
-- 
2.43.0


From aba2348fb8fa54ae542c37b1a31e9e52370267af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 14/21] fix: LCRQ uses the reserved GUARD_VALUE for marking
 empty cells, so that -1 can be enqueued

---
 libconcurrent/concurrent/lcrq.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/lcrq.c b/libconcurrent/concurrent/lcrq.c
index 710b728..f51b57f 100644
--- a/libconcurrent/concurrent/lcrq.c
+++ b/libconcurrent/concurrent/lcrq.c
@@ -70,7 +70,7 @@ inline static void init_ring(RingQueue *r) {
     int i;
 
     for (i = 0; i < RING_SIZE; i++) {
-        r->array[i].val = -1;
+        r->array[i].val = GUARD_VALUE;
         r->array[i].idx = i;
     }
 
@@ -79,7 +79,7 @@ inline static void init_ring(RingQueue *r) {
 }
 
 inline static int is_empty(uint64_t v)  {
-    return (v == (uint64_t)-1);
+    return (v == (uint64_t)GUARD_VALUE);
 }
 
 inline static uint64_t node_index(uint64_t i) {
@@ -183,7 +183,7 @@ alloc:
 
         if (synchLikely(is_empty(val))) {
             if (synchLikely(node_index(idx) <= t)) {
-                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, -1, idx, arg, t)) {
+                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, GUARD_VALUE, idx, arg, t)) {
                     return;
                 }
             }
@@ -226,7 +226,7 @@ RetVal LCRQDequeue(LCRQStruct *queue, LCRQThreadState *thread_state, int pid UNU
 
             if (synchLikely(!is_empty(val))) {
                 if (synchLikely(idx == h)) {
-                    if (synchCAS128((uint64_t *)cell, val, cell_idx, -1, (unsafe | h) + RING_SIZE)) return val;
+                    if (synchCAS128((uint64_t *)cell, val, cell_idx, GUARD_VALUE, (unsafe | h) + RING_SIZE)) return val;
                 } else {
                     if (synchCAS128((uint64_t *)cell, val, cell_idx, val, set_unsafe(idx))) {
                         count_unsafe_node(thread_state);
-- 
2.43.0


From 9405c238d82a75fe6282f6eff7e66d8d5f806ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 15/21] fix: pool keeps its blocks linked, so that
 synchDestroyPool frees all of them

---
 libconcurrent/primitives/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/pool.c b/libconcurrent/primitives/pool.c
index a4b4a1b..e54b041 100644
--- a/libconcurrent/primitives/pool.c
+++ b/libconcurrent/primitives/pool.c
@@ -58,6 +58,7 @@ void *synchAllocObj(SynchPoolStruct *pool) {
             } else {
                 SynchPoolBlock *new_block = get_new_block(pool->obj_size);
                 new_block->metadata.back = pool->cur_block;
+                pool->cur_block->metadata.next = new_block;
                 pool->cur_block = new_block;
             }
             ret = synchAllocObj(pool);
-- 
2.43.0


From 1d93520528817b4e5d526920669be6c65a719f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 16/21] fix: synchStartThreadsN does not inherit the scheduling
 policy of a previous call

---
 libconcurrent/primitives/threadtools.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 63823d1..e0c88cf 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -209,6 +209,7 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
     synchStoreFence();
     if (uthreads != SYNCH_DONT_USE_UTHREADS && uthreads > 1) {
         __uthreads = uthreads;
+        __noop_resched = false;
         __uthread_sched = true;
         __system_oversubscription = true;
         synchBarrierSet(&bar, nthreads / uthreads + 1);
@@ -223,10 +224,8 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         uthreadWrapper((void *)(i * uthreads));
     } else {
         __uthread_sched = false;
-        if (__nthreads > __ncores)
-            __system_oversubscription = true;
-        else
-            __noop_resched = true;
+        __system_oversubscription = __nthreads > __ncores;
+        __noop_resched = !__system_oversubscription;
         synchBarrierSet(&bar, nthreads + 1);
         for (i = 0; i < nthreads - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, kthreadWrapper, (void *)i);
-- 
2.43.0


From c2e9dc8eae25e6cc1f533863a30f2aee2c2fe5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 17/21] fix: the SMT-prefer placement policy does not pin
 threads on the same core while other cores are idle

---
 libconcurrent/primitives/threadtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index e0c88cf..c09600b 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -106,7 +106,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 uint32_t double_nodes = 2 * nodes;
                 uint32_t half_node_size = node_size / 2;
 
-                preferred_core = (pid % node_size) * half_node_size + (pid / double_nodes);
+                preferred_core = (pid % double_nodes) * half_node_size + (pid / double_nodes);
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) {
             preferred_core = pid;
-- 
2.43.0


From f4c090f474519c213cfdd666dd843902942af1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 18/21] fix: synchPreferredNumaNodeOfThread returns an existing
 node and does not divide by zero in machines with a few cores

---
 libconcurrent/primitives/threadtools.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index c09600b..92284cd 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -135,15 +135,17 @@ inline uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) {
     uint32_t node_size = ncpus / nodes;
 
     if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
-        uint32_t half_node_size = node_size / 2;
+        uint32_t half_node_size = node_size > 1 ? node_size / 2 : 1;
 
         if (preferred_core < ncpus / 2)
             preferred_node = preferred_core/half_node_size;
         else 
             preferred_node = (preferred_core - (ncpus/2))/half_node_size;
     } else {
-        preferred_node = preferred_core/node_size;
+        preferred_node = preferred_core/(node_size > 0 ? node_size : 1);
     }
+    if (preferred_node >= nodes)
+        preferred_node = nodes - 1;
 #else
     preferred_node = 0;
 #endif
-- 
2.43.0


From dc662c55cd63e972e786388ebd8f9671367659b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 19/21] fix: the whole stack of each finished fiber is freed

---
 libconcurrent/primitives/uthreads.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index c60c44c..3294f34 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -54,7 +54,7 @@ void synchFiberYield(void) {
     } while (FIBER_LIST[currentFiber].active == false);
     switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);
     if (FIBER_RECYCLE != NULL) {
-        synchFreeMemory(FIBER_RECYCLE, sizeof(Fiber));
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
         FIBER_RECYCLE = NULL;
     }
 }
@@ -73,6 +73,8 @@ static void fiber_start_func(FiberData *context) {
     func((void *)arg); // Execute fiber with function func
     if (N_FIBERS == 1) // This check is not useful, since
         return;        // main thread never calls fiber_start_func
+    if (FIBER_RECYCLE != NULL) // The stack of a fiber that finished just before the first run of this one
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
     FIBER_RECYCLE = FIBER_LIST[currentFiber].context.uc_stack.ss_sp;
     FIBER_LIST[currentFiber].active = false;
     N_FIBERS--;
-- 
2.43.0


From f536994bf2bb8435f94b3e2b138e7a6bdad04160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 20/21] fix: synchSpawnFiber does not overwrite a running fiber
 after some other fiber has finished

---
 libconcurrent/primitives/uthreads.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index 3294f34..e1b45c3 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -88,23 +88,26 @@ static void fiber_start_func(FiberData *context) {
 int synchSpawnFiber(void *(*func)(void *), long arg) {
     ucontext_t tmp;
     FiberData context;
+    int slot = 1;
 
     if (N_FIBERS == MAX_FIBERS)
         return -1;
 
-    getcontext(&(FIBER_LIST[N_FIBERS].context));
-    FIBER_LIST[N_FIBERS].active = true;
-    FIBER_LIST[N_FIBERS].context.uc_link = NULL;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_size = FIBER_STACK;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_flags = 0;
+    while (FIBER_LIST[slot].active) // Some fibers may have finished, find a free slot
+        slot++;
+    getcontext(&(FIBER_LIST[slot].context));
+    FIBER_LIST[slot].active = true;
+    FIBER_LIST[slot].context.uc_link = NULL;
+    FIBER_LIST[slot].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
+    FIBER_LIST[slot].context.uc_stack.ss_size = FIBER_STACK;
+    FIBER_LIST[slot].context.uc_stack.ss_flags = 0;
 
     context.func = func;
     context.arg = arg;
-    context.cur = &FIBER_LIST[N_FIBERS].jmp;
+    context.cur = &FIBER_LIST[slot].jmp;
     context.prev = &tmp;
-    makecontext(&FIBER_LIST[N_FIBERS].context, (void (*)())fiber_start_func, 1, &context);
-    swapcontext(&tmp, &FIBER_LIST[N_FIBERS].context);
+    makecontext(&FIBER_LIST[slot].context, (void (*)())fiber_start_func, 1, &context);
+    swapcontext(&tmp, &FIBER_LIST[slot].context);
     N_FIBERS++;
     return 1;
 }
-- 
2.43.0


From 0f941fa3f68e94307c2a279bc9c0dcd4d45faaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 21/21] fix: synchBarrierLastLeave waits until all the threads
 have left

---
 libconcurrent/primitives/barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/barrier.c b/libconcurrent/primitives/barrier.c
index 4cee31a..b5c1213 100644
--- a/libconcurrent/primitives/barrier.c
+++ b/libconcurrent/primitives/barrier.c
@@ -45,7 +45,7 @@ inline void synchBarrierLeave(SynchBarrier *bar) {
 
 inline void synchBarrierLastLeave(SynchBarrier *bar) {
     synchBarrierLeave(bar);
-    while (bar->arrive != 0 && bar->leave != 0) {
+    while (bar->arrive != 0 || bar->leave != 0) {
         synchResched();
     }
 }
-- 
2.43.0

