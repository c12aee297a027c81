From 0dbce7f4cb07e6a9a63f209c05fbc9b8a257e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:09 +0000
Subject: [PATCH 1/8] fix: insert into the middle of a sorted doubly-linked
 list

list_insert_sorted() followed the previous pointer while searching the
insert position and dereferenced NULL whenever the new item did not
become the head or the tail.
---
 list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.c b/list.c
index b38535e..287d59f 100644
--- a/list.c
+++ b/list.c
@@ -215,7 +215,7 @@ _list_prepend_new_sorted(List *list, void *data)
 		}
 		else
 		{
-			ptr = &(*ptr)->prev->next;
+			ptr = &(*ptr)->next;
 		}
 	}
 
-- 
2.43.0


From b8c4c4be1c1676e3e649b53a6406d87d43e43072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:09 +0000
Subject: [PATCH 2/8] fix: initialize the stack of iterators over an empty
 red-black tree

rbtree_iter_free() and rbtree_iter_reuse() passed an uninitialized pointer
to free()/realloc() if the iterator was created on an empty tree.
---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index 6fbaa6c..f28800b 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -873,6 +873,7 @@ rbtree_iter_init(const RBTree *tree, RBTreeIter *iter)
 	assert(iter != NULL);
 
 	iter->tree = tree;
+	iter->stack = NULL;
 	iter->stack_size = tree->count + 1;
 	iter->sp = NULL;
 	iter->finished = false;
-- 
2.43.0


From 142543210aa4d1d52e2569a7cda0f89a359ce9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:09 +0000
Subject: [PATCH 3/8] fix: do not read into a variable-length array in
 buffer_fill_from_fd()

Counts larger than the stack crashed the process although they are within
the maximum size of the buffer.
---
 buffer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buffer.c b/buffer.c
index 8c218b5..89783ee 100644
--- a/buffer.c
+++ b/buffer.c
@@ -195,7 +195,13 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 	RETURN_VAL_IF_INVALID(buf, 0);
 
 	ssize_t bytes;
-	char data[count];
+	char *data = (char *)malloc(count ? count : 1);
+
+	if(!data)
+	{
+		perror("malloc()");
+		abort();
+	}
 
 	if((bytes = read(fd, data, count)) > 0)
 	{
@@ -209,6 +215,8 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 		perror("read()");
 	}
 
+	free(data);
+
 	return bytes;
 }
 
-- 
2.43.0


From 2ac00318616fbedfd77e1eb141f887d2281dbaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:44 +0000
Subject: [PATCH 4/8] fix: let async_queue_pop_timeout() wait for the specified
 milliseconds

The deadline was rounded down to a whole second, so that timeouts ended
up to a second early (or at once).
---
 asyncqueue.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 05a517f..2d4afaa 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -150,7 +150,13 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 			gettimeofday(&now, NULL);
 
 			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = 0;
+			val.tv_nsec = (now.tv_usec + (ms % 1000) * 1000) * 1000;
+
+			if(val.tv_nsec >= 1000000000)
+			{
+				++val.tv_sec;
+				val.tv_nsec -= 1000000000;
+			}
 
 			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
 		}
-- 
2.43.0


From 10455a55b6d90d35148b23214415decc8420f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:44 +0000
Subject: [PATCH 5/8] fix: keep waiting after a spurious or stolen wake-up of a
 consumer

A woken consumer failed if the condition was signalled spuriously or if
another consumer took the item first, although async_queue_pop() blocks and
async_queue_pop_timeout() had time left.
---
 asyncqueue.c | 56 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 2d4afaa..e5353b4 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -131,8 +131,27 @@ _async_queue_try_lock(AsyncQueue *queue)
 	return !rc;
 }
 
+static void
+_async_queue_get_deadline(struct timespec *deadline, uint32_t ms)
+{
+	assert(deadline != NULL);
+
+	struct timeval now;
+
+	gettimeofday(&now, NULL);
+
+	deadline->tv_sec = now.tv_sec + (ms / 1000);
+	deadline->tv_nsec = (now.tv_usec + (ms % 1000) * 1000) * 1000;
+
+	if(deadline->tv_nsec >= 1000000000)
+	{
+		++deadline->tv_sec;
+		deadline->tv_nsec -= 1000000000;
+	}
+}
+
 static bool
-_async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
+_async_queue_cond_wait(AsyncQueue *queue, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -142,23 +161,9 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 	{
 		++queue->waiting;
 
-		if(ms)
+		if(deadline)
 		{
-			struct timespec val;
-			struct timeval now;
-
-			gettimeofday(&now, NULL);
-
-			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = (now.tv_usec + (ms % 1000) * 1000) * 1000;
-
-			if(val.tv_nsec >= 1000000000)
-			{
-				++val.tv_sec;
-				val.tv_nsec -= 1000000000;
-			}
-
-			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
+			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, deadline);
 		}
 		else
 		{
@@ -184,8 +189,21 @@ _async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
 
 	if(_async_queue_try_lock(queue))
 	{
-		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));
+		struct timespec deadline;
+		bool wait = true;
+
+		if(ms)
+		{
+			_async_queue_get_deadline(&deadline, ms);
+		}
+
+		success = queue_pop(&queue->queue, data);
+
+		while(!success && wait)
+		{
+			wait = _async_queue_cond_wait(queue, ms ? &deadline : NULL);
+			success = queue_pop(&queue->queue, data);
+		}
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
-- 
2.43.0


From 1ccdf8396c1f3ef11667c360f6661770d15959bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:44 +0000
Subject: [PATCH 6/8] fix: do not block forever in async_queue_pop_timeout()
 with a timeout of zero

Zero milliseconds were taken as "no timeout", which is what
async_queue_pop() is for.
---
 asyncqueue.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index e5353b4..578e4eb 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -181,7 +181,7 @@ _async_queue_cond_wait(AsyncQueue *queue, const struct timespec *deadline)
 }
 
 static bool
-_async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
+_async_queue_pop(AsyncQueue *queue, void *data, const uint32_t *ms)
 {
 	assert(queue != NULL);
 
@@ -194,7 +194,7 @@ _async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
 
 		if(ms)
 		{
-			_async_queue_get_deadline(&deadline, ms);
+			_async_queue_get_deadline(&deadline, *ms);
 		}
 
 		success = queue_pop(&queue->queue, data);
@@ -216,13 +216,13 @@ async_queue_pop(AsyncQueue *queue, void *data)
 {
 	assert(queue != NULL);
 
-	return _async_queue_pop(queue, data, 0);
+	return _async_queue_pop(queue, data, NULL);
 }
 
 bool
 async_queue_pop_timeout(AsyncQueue *queue, void *data, uint32_t ms)
 {
-	return _async_queue_pop(queue, data, ms);
+	return _async_queue_pop(queue, data, &ms);
 }
 
 void
-- 
2.43.0


From 7c64d85e26dcf918160f466bc27172eaefdb2f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 7/8] fix: list_remove_by_data() reads freed data when the
 searched data belong to the list

---
 list.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/list.c b/list.c
index 287d59f..0dc8687 100644
--- a/list.c
+++ b/list.c
@@ -301,6 +301,7 @@ list_remove_by_data(List *list, void *data, bool remove_all)
 	assert(list->compare != NULL);
 
 	ListItem *iter = list->head;
+	ListItem *own = NULL;
 	bool completed = false;
 
 	while(iter && !completed)
@@ -311,11 +312,24 @@ list_remove_by_data(List *list, void *data, bool remove_all)
 		{
 			completed = !remove_all;
 
-			list_remove(list, iter);
+			if(iter->data == data && !own)
+			{
+				/* the given data are compared until the loop has ended */
+				own = iter;
+			}
+			else
+			{
+				list_remove(list, iter);
+			}
 		}
 
 		iter = next;
 	}
+
+	if(own)
+	{
+		list_remove(list, own);
+	}
 }
 
 void *
-- 
2.43.0


From ec657449e170fa04dd1f19ead4fe5b2437282c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 8/8] fix: slist_remove_by_data() reads freed data when the
 searched data belong to the list

---
 slist.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/slist.c b/slist.c
index 76f323e..6c756c8 100644
--- a/slist.c
+++ b/slist.c
@@ -293,6 +293,7 @@ slist_remove_by_data(SList *list, void *data, bool remove_all)
 
 	SListItem **ptr = &list->head;
 	SListItem *tail = NULL;
+	SListItem *own = NULL;
 	bool completed = false;
 
 	while(*ptr && !completed)
@@ -308,7 +309,16 @@ slist_remove_by_data(SList *list, void *data, bool remove_all)
 				list->tail = tail;
 			}
 
-			_slist_item_free(list, *ptr);
+			if((*ptr)->data == data && !own)
+			{
+				/* the given data are compared until the loop has ended */
+				own = *ptr;
+			}
+			else
+			{
+				_slist_item_free(list, *ptr);
+			}
+
 			*ptr = next;
 
 			--list->count;
@@ -319,6 +329,11 @@ slist_remove_by_data(SList *list, void *data, bool remove_all)
 			ptr = &(*ptr)->next;
 		}
 	}
+
+	if(own)
+	{
+		_slist_item_free(list, own);
+	}
 }
 
 void *
-- 
2.43.0

