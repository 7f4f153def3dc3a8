From 6fb6c577025066acc98e09109fed99bd2b6995f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 01/71] fix: refused handles must not yield the caller's entry
 handle

The time stamped and strided logger allocations and three single producer
queue operations returned the caller's uninitialised handle (non-NULL) when
the type check of the log or queue failed.
---
 src/sphlflogger.cpp      | 12 ++++++++----
 src/sphsinglepcqueue.cpp |  9 ++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 9f46dc4..a251bc3 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -305,10 +305,11 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) type check failed\n",
 		  log, alloc_size);
 #endif
@@ -435,10 +436,11 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 log, alloc_round);
@@ -515,10 +517,11 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 							       handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_size);
@@ -594,10 +597,11 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 								     handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_round);
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 8e2a3c1..3815c13 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -954,10 +954,11 @@ SPHSinglePCQueueAllocStrideEntry (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideEntry(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1031,10 +1032,11 @@ SPHSinglePCQueueAllocStrideTimeStamped (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1116,10 +1118,11 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
 	{
 	  handlespace = NULL;
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
-- 
2.43.0


From 3997d82805b553a3c6af221d5cd84f1515f76582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 02/71] fix: check queue handle in SPHMPMCQGetEntries as
 documented

---
 src/sphmultipcqueue.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f353c9f..b7c39fd 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -206,7 +206,17 @@ SPHMPMCQGetEntries (SPHMPMCQ_t queue)
 {
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
-	return (headerBlock->endq - headerBlock->startq) / headerBlock->default_entry_stride;
+	int rc = 0;
+
+	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+	                                  SAS_RUNTIME_PCQUEUE_TM)) {
+		if (headerBlock->default_entry_stride != 0)
+			rc = (headerBlock->endq - headerBlock->startq) / headerBlock->default_entry_stride;
+	} else {
+		rc = -1;
+		debug_printf ("SPHMPMCQGetEntries(%p) type check failed\n", queue);
+	}
+	return rc;
 }
 
 int
-- 
2.43.0


From 6ba23c168c2f67d6e66973387e54c5a85aff3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 03/71] fix: SPHLockFreeHeapNearFind must look for a lock free
 heap

---
 src/sphlockfreeheap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 43b7cf6..03bbfe6 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -599,7 +599,7 @@ SPHLockFreeHeapNearFind (void *nearObj)
   headerBlock = (SASBlockHeader *) SASFindHeader (nearObj);
   if (headerBlock)
     {
-      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
+      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_LOCKFREEHEAP))
 	{
 	  result = (SPHLockFreeHeap_t) headerBlock;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From b6a880faf2559e817a9ac692e089c099338abde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 04/71] fix: release exactly the expansion locks taken by the
 B-tree and index page allocators

---
 src/sasindex.cpp       | 30 ++++++++++++------------------
 src/sasstringbtree.cpp | 22 ++++++++--------------
 2 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 860fcb9..fbdec7c 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -407,6 +407,7 @@ SASIndexAlloc (SASIndex_t heap)
 	    	
 	    	if (SASIndexPercentUsed(lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    	{
+				last_lock = list->count - 1;
 				for ( i = 0; i < list->count-1; i++ )
 				{
 					SASIndexHeader	*expandBlock = list->heap[i];
@@ -416,7 +417,7 @@ SASIndexAlloc (SASIndex_t heap)
 			    	       < DEFAULT_LOAD_FACTOR )
 			    	{
 			    		expandHeader = expandBlock;
-			    		last_lock = i;
+			    		last_lock = i + 1;
 			    		break;
 			    	}
 				}
@@ -424,7 +425,6 @@ SASIndexAlloc (SASIndex_t heap)
 				{
 					expandHeader = (SASIndexHeader*)
 					                 SASIndexExpandCreate (heap);
-		    		last_lock = list->count-2;
 				}
 	    	} else {
 	    		expandHeader = lastHeader;
@@ -432,13 +432,10 @@ SASIndexAlloc (SASIndex_t heap)
 	    	if (  expandHeader != NULL )
 				newHeap = SASIndexAllocInternal (expandHeader);
 				
-	    	if (lastHeader != expandHeader)
-	    	{
-				for ( i = 1; i <= last_lock; i++ )
-				{
-	    			SASUnlock(list->heap[i]);
-				}
-	    	} 
+	    	for (i = 1; i < last_lock; i++)
+	    	  {
+	    	    SASUnlock(list->heap[i]);
+	    	  }
 	    	if (lastHeader != heapHeader)
 				SASUnlock(lastHeader);
 		} else {
@@ -727,7 +724,7 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 	    	
 	    	if (SASIndexPercentUsed(lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    	{
-	    		last_lock = list->count-2;
+				last_lock = list->count - 1;
 				for ( i = 0; i < list->count-1; i++ )
 				{
 					SASIndexHeader	*expandBlock = list->heap[i];
@@ -737,7 +734,7 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 			    	       < DEFAULT_LOAD_FACTOR )
 			    	{
 			    		expandHeader = expandBlock;
-			    		last_lock = i;
+			    		last_lock = i + 1;
 			    		break;
 			    	}
 				}
@@ -752,13 +749,10 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 	    	if (  expandHeader != NULL )
 				newHeap = SASIndexSpillInternal (expandHeader);
 				
-	    	if (lastHeader != expandHeader)
-	    	{
-				for ( i = 1; i <= last_lock; i++ )
-				{
-                                if (lock_on) SASUnlock(list->heap[i]);
-				}
-	    	} 
+	    	for (i = 1; i < last_lock; i++)
+	    	  {
+	    	    if (lock_on) SASUnlock(list->heap[i]);
+	    	  }
 	    	if (lastHeader != heapHeader)
 				if (lock_on) SASUnlock(lastHeader);
 		} else {
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 512837e..76f99df 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -425,6 +425,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 
 	  if (SASStringBTreePercentUsed (lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    {
+	      last_lock = list->count - 1;
 	      for (i = 0; i < list->count - 1; i++)
 		{
 		  SASStringBTreeHeader *expandBlock = list->heap[i];
@@ -434,7 +435,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		      < DEFAULT_LOAD_FACTOR)
 		    {
 		      expandHeader = expandBlock;
-		      last_lock = i;
+		      last_lock = i + 1;
 		      break;
 		    }
 		}
@@ -442,7 +443,6 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		{
 		  expandHeader = (SASStringBTreeHeader *)
 		    SASStringBTreeExpandCreate (heap);
-	          last_lock = list->count - 2;
 		}
 	    }
 	  else
@@ -452,12 +452,9 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 	  if (expandHeader != NULL)
 	    newHeap = SASStringBTreeAllocInternal (expandHeader);
 
-	  if (lastHeader != expandHeader)
+	  for (i = 1; i < last_lock; i++)
 	    {
-	      for (i = 1; i <= last_lock; i++)
-		{
-		  SASUnlock (list->heap[i]);
-		}
+	      SASUnlock (list->heap[i]);
 	    }
 	  if (lastHeader != heapHeader)
 	    SASUnlock (lastHeader);
@@ -787,7 +784,7 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 
 	  if (SASStringBTreePercentUsed (lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    {
-	      last_lock = list->count - 2;
+	      last_lock = list->count - 1;
 	      for (i = 0; i < list->count - 1; i++)
 		{
 		  SASStringBTreeHeader *expandBlock = list->heap[i];
@@ -797,7 +794,7 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 		      < DEFAULT_LOAD_FACTOR)
 		    {
 		      expandHeader = expandBlock;
-		      last_lock = i;
+		      last_lock = i + 1;
 		      break;
 		    }
 		}
@@ -814,12 +811,9 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 	  if (expandHeader != NULL)
 	    newHeap = SASStringBTreeSpillInternal (expandHeader);
 
-	  if (lastHeader != expandHeader)
+	  for (i = 1; i < last_lock; i++)
 	    {
-	      for (i = 1; i <= last_lock; i++)
-		{
-		  if (lock_on) SASUnlock (list->heap[i]);
-		}
+	      if (lock_on) SASUnlock (list->heap[i]);
 	    }
 	  if (lastHeader != heapHeader)
 	    if (lock_on) SASUnlock (lastHeader);
-- 
2.43.0


From 157b620ec37bce508809467d19d165595fb4a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 05/71] fix: unlock the expansion block that was locked while
 freeing a page

---
 src/sascompoundheap.cpp | 8 ++++----
 src/sasindex.cpp        | 4 ++--
 src/sasstringbtree.cpp  | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 429aac4..e83c0bb 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -607,11 +607,11 @@ SASCompoundHeapFree (SASCompoundHeap_t heap, SASSimpleHeap_t free_block)
 		    {
 		      SASCompoundHeapFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
@@ -1505,11 +1505,11 @@ SPHCompoundPCQFree (SASCompoundHeap_t heap, SPHSinglePCQueue_t free_block)
 		    {
 			  SPHCompoundPCQFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index fbdec7c..c38e4b3 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -526,11 +526,11 @@ SASIndexFree (SASIndex_t heap,
 					{
 						SASIndexFreeInternal (expandBlock, free_block);					
 						if ( i > 0 )
-							SASUnlock(heap);
+							SASUnlock (expandBlock);
 			    		break;
 			    	}
 					if ( i > 0 )
-			    		SASUnlock(heap);
+			    		SASUnlock (expandBlock);
 				}
 			} else {
 				if (SASIndexContains(headerBlock, free_block))
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 76f99df..4a57579 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -558,11 +558,11 @@ SASStringBTreeFree (SASStringBTree_t heap, SASStringBTreeNode_t free_block)
 		    {
 		      SASStringBTreeFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
-- 
2.43.0


From 45b7fbba73a6f09cc99843ed0b03bdfa8ce54de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 06/71] fix: near allocation must not wait for the base lock
 while holding the lock of a part

---
 src/sascompoundheap.cpp | 20 ++++++++++----------
 src/sasindex.cpp        |  7 +++++--
 src/sasstringbtree.cpp  | 10 +++++-----
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index e83c0bb..fc198c0 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -748,11 +748,7 @@ SASCompoundHeapNearAlloc (void *nearObj)
 	      if (SASCompoundHeapAvail (compoundHeader))
 		{
 		  newHeap = SASCompoundHeapAllocInternal (compoundHeader);
-		}
-	      else
-		{
-		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		  baseHeader = NULL;
 		}
 #ifdef __SASDebugPrint__
 	    }
@@ -764,6 +760,10 @@ SASCompoundHeapNearAlloc (void *nearObj)
 #endif
 	    }
 	  SASUnlock (compoundHeader);
+	  /* The lock of the base block always comes before the locks of its
+	   * parts, so allocate from the base only after unlocking the part.  */
+	  if (baseHeader != NULL)
+	    newHeap = SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
@@ -1646,11 +1646,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 	      if (SASCompoundHeapAvail (compoundHeader))
 		{
 		  newHeap = SPHCompoundPCQAllocInternal (compoundHeader);
-		}
-	      else
-		{
-		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		  baseHeader = NULL;
 		}
 #ifdef __SASDebugPrint__
 	    }
@@ -1662,6 +1658,10 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 #endif
 	    }
 	  SASUnlock (compoundHeader);
+	  /* The lock of the base block always comes before the locks of its
+	   * parts, so allocate from the base only after unlocking the part.  */
+	  if (baseHeader != NULL)
+	    newHeap = SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index c38e4b3..60bb9bd 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -648,8 +648,7 @@ SASIndexNearAlloc(void *nearObj)
 				if (SASIndexAvail(compoundHeader))
 				{
 					newHeap = SASIndexAllocInternal (compoundHeader);
-				} else {
-					newHeap = SASIndexAlloc ((SASIndex_t)baseHeader);
+					baseHeader = NULL;
 				}
 #ifdef __SASDebugPrint__
 		    } else {
@@ -658,6 +657,10 @@ SASIndexNearAlloc(void *nearObj)
 #endif
 		    }
 		    SASUnlock(compoundHeader);
+		    /* The lock of the base block always comes before the locks of its
+		     * parts, so allocate from the base only after unlocking the part.  */
+		    if (baseHeader != NULL)
+		      newHeap = SASIndexAlloc ((SASIndex_t) baseHeader);
 		}
 #ifdef __SASDebugPrint__
     } else {
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 4a57579..15c80f9 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -699,11 +699,7 @@ SASStringBTreeNearAlloc (void *nearObj)
 	      if (SASStringBTreeAvail (compoundHeader))
 		{
 		  newHeap = SASStringBTreeAllocInternal (compoundHeader);
-		}
-	      else
-		{
-		  newHeap =
-		    SASStringBTreeAlloc ((SASStringBTree_t) baseHeader);
+		  baseHeader = NULL;
 		}
 #ifdef __SASDebugPrint__
 	    }
@@ -715,6 +711,10 @@ SASStringBTreeNearAlloc (void *nearObj)
 #endif
 	    }
 	  SASUnlock (compoundHeader);
+	  /* The lock of the base block always comes before the locks of its
+	   * parts, so allocate from the base only after unlocking the part.  */
+	  if (baseHeader != NULL)
+	    newHeap = SASStringBTreeAlloc ((SASStringBTree_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From 2ae273c0ac87482d4fc2bff6212a9ccdcc60faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 07/71] fix: near allocation of a queue must fall back to a
 queue, not a simple heap

---
 src/sascompoundheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index fc198c0..4f8ecc9 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1586,7 +1586,7 @@ SPHCompoundPCQNearAllocNoLock (void *nearObj)
 		newHeap = SPHCompoundPCQAllocInternal (compoundHeader);
 	      else
 		newHeap =
-		  SASCompoundHeapAllocNoLock ((SASCompoundHeap_t) baseHeader);
+		  SPHCompoundPCQAllocNoLock ((SASCompoundHeap_t) baseHeader);
 #ifdef __SASDebugPrint__
 	    }
 	  else
@@ -1661,7 +1661,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 	  /* The lock of the base block always comes before the locks of its
 	   * parts, so allocate from the base only after unlocking the part.  */
 	  if (baseHeader != NULL)
-	    newHeap = SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+	    newHeap = SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From 07a09d1de358893df9780eb3a93bc629a265d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 08/71] fix: unlocked B-tree and index operations must not take
 the tree lock

---
 src/sasindexnode.cpp       | 10 ++++++++--
 src/sasstringbtree.cpp     | 14 ++++++++++++++
 src/sasstringbtreeenum.cpp |  2 +-
 src/sasstringbtreenode.cpp | 10 ++++++++--
 src/sasstringbtreepriv.h   |  3 +++
 5 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index 7cd8b95..b58b55e 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -1628,7 +1628,10 @@ SASIndexNodeRemove (SASIndexNode_t node_t, short pos,
 #ifdef __SASDebugPrint__
       sas_printf ("Remove: delete branch for pos=%hd @%p\n", pos, q);
 #endif
-      SASIndexNearDealloc (q);
+      if (lock_on)
+        SASIndexNearDealloc (q);
+      else
+        SASIndexNearDeallocNoLock (q);
     }
 #if __SASDebugPrint__ > 1
   sas_printf ("Remove: subtree=");
@@ -1681,7 +1684,10 @@ SASIndexNodeCombine (SASIndexNode_t node_t, short pos,
   node->vals[pos] = NULL;
   SASIndexNodeRemove (node_t, pos, lock_on);
 // dispose of q, since it is empty
-  SASIndexNearDealloc (q);
+  if (lock_on)
+    SASIndexNearDealloc (q);
+  else
+    SASIndexNearDeallocNoLock (q);
 }
 
 void
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 15c80f9..cddbe91 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1403,6 +1403,20 @@ SASStringBTreeGetCurCount (SASStringBTree_t heap)
   return result;
 }
 
+long
+SASStringBTreeGetCurCount_nolock (SASStringBTree_t heap)
+{
+  SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
+  long result = 0;
+
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+				  SAS_RUNTIME_STRINGBTREE))
+    {
+      result = btree->common->count;
+    }
+  return result;
+}
+
 static inline void
 SASStringBTreeHeaderDealloc (SASStringBTree_t heap,
 			     void *memAddr, block_size_t size)
diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index 74c0568..cb6ae59 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -370,7 +370,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		  stringenum->curkey = curSBnode->keys[curpos];
 		  stringenum->curmod = treemod;
 		  stringenum->curcount =
-		    SASStringBTreeGetCurCount (stringenum->tree);
+		    SASStringBTreeGetCurCount_nolock (stringenum->tree);
 		  stringenum->hasmore =
 		    (strcmp (stringenum->curkey, maxkey) < 0);
 #if __SASDebugPrint__ > 1
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 87babe4..78c9e38 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -1621,7 +1621,10 @@ SASStringBTreeNodeRemove (SASStringBTreeNode_t node_t, short pos,
 #ifdef __SASDebugPrint__
       sas_printf ("Remove: delete branch for pos=%hd @%p\n", pos, q);
 #endif
-      SASStringBTreeNearDealloc (q);
+      if (lock_on)
+        SASStringBTreeNearDealloc (q);
+      else
+        SASStringBTreeNearDeallocNoLock (q);
     }
 #if __SASDebugPrint__ > 1
   sas_printf ("Remove: subtree=");
@@ -1674,7 +1677,10 @@ SASStringBTreeNodeCombine (SASStringBTreeNode_t node_t, short pos,
   node->vals[pos] = NULL;
   SASStringBTreeNodeRemove (node_t, pos, lock_on);
 // dispose of q, since it is empty
-  SASStringBTreeNearDealloc (q);
+  if (lock_on)
+    SASStringBTreeNearDealloc (q);
+  else
+    SASStringBTreeNearDeallocNoLock (q);
 }
 
 void
diff --git a/src/sasstringbtreepriv.h b/src/sasstringbtreepriv.h
index f1ef42d..04d30f5 100644
--- a/src/sasstringbtreepriv.h
+++ b/src/sasstringbtreepriv.h
@@ -105,6 +105,9 @@ SASStringBTreeGetSpillNear(void *nearObj)
 extern void
 SASStringBTreePrintStatsPriv (SASStringBTreeHeader *heap);
 
+extern __C__ long
+SASStringBTreeGetCurCount_nolock (SASStringBTree_t btree);
+
 extern SASStringBTreeNode_t 
 SASStringBTreeSpillAlloc(void *nearObj, lock_on_t lock_on);
 
-- 
2.43.0


From 9bc537e4a26b0987352a2f4b3bf8f8aa9381e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 09/71] fix: SASCompoundHeapDestroyNoLock must not lock its
 list space

---
 src/sascompoundheap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 4f8ecc9..13e9fe2 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1212,7 +1212,7 @@ SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 	  list->max_count = 1;
 	  if (headerBlock->expandSpace != NULL)
 	    {
-	      SASSimpleSpaceDestroy (headerBlock->expandSpace);
+	      SASSimpleSpaceDestroyNoLock (headerBlock->expandSpace);
 	    }
 	}
       SASBlockDealloc (heap, heapSize);
-- 
2.43.0


From 6ff0a1de95f8fc5431079c791fdfb62f1371b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 10/71] fix: SASSimpleHeapNearAlloc and NearDealloc must lock
 and check the heap as documented

Their NoLock forms were defined with another signature than declared and
so never had the C linkage name the header promises.
---
 src/sassimpleheap.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 568b25e..f38d206 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -193,8 +193,9 @@ SASSimpleHeapNearFind(void *nearObj)
 }
 
 void*
-SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearAllocNoLock(void *nearObj, long allocSize)
 {
+    block_size_t	alloc_size = allocSize;
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
     freeNode		*mem = NULL;
@@ -233,12 +234,22 @@ SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
 
 void* SASSimpleHeapNearAlloc(void *nearObj, long allocSize)
 {
-    return SASNearAlloc (nearObj, allocSize);
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (nearObj);
+    void		*mem = NULL;
+
+    if (heap)
+    {
+	SASLock(heap, SasUserLock__WRITE);
+	mem = SASSimpleHeapNearAllocNoLock (nearObj, allocSize);
+	SASUnlock(heap);
+    }
+    return mem;
 }
 
 void
-SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 {
+    block_size_t	alloc_size = allocSize;
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
     freeNode		*free_node = (freeNode*)nearObj;
@@ -277,7 +288,14 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
 
 void SASSimpleHeapNearDealloc(void *memAddr, long allocSize)
 {							
-    SASNearDealloc (memAddr, allocSize);
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (memAddr);
+
+    if (heap)
+    {
+	SASLock(heap, SasUserLock__WRITE);
+	SASSimpleHeapNearDeallocNoLock (memAddr, allocSize);
+	SASUnlock(heap);
+    }
 }
 
 block_size_t
-- 
2.43.0


From 46ebcbeaa46ed51e3b5fe44e7dde446aebd4bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 11/71] fix: heap frees must not write to the block before
 checking it

---
 src/sasindexnode.cpp  | 3 +--
 src/sassimpleheap.cpp | 5 ++---
 src/sphcontext.cpp    | 3 +--
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index b58b55e..0e2b4ef 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -220,8 +220,6 @@ SASIndexNodeFreeNoLock (SASIndexNode_t heap,
   freeNode *free_node = (freeNode *) free_block;
   int rc;
 
-  freeNode_init (free_node, alloc_size);
-
   if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
     {
       heapSize = headerBlock->blockSize - heap_offset;
@@ -229,6 +227,7 @@ SASIndexNodeFreeNoLock (SASIndexNode_t heap,
 	  && ((unsigned long) free_block >=
 	      ((unsigned long) headerBlock + heap_offset)))
 	{
+	  freeNode_init (free_node, alloc_size);
 	  freeNode_deallocSpace (free_node, &headerBlock->blockFreeSpace,
 				 alloc_size);
 	  rc = 0;
diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index f38d206..a82538f 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -115,14 +115,13 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
-    freeNode_init(free_node, alloc_size);
-    
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
 		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
 		{
+		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 		    rc = 0;
 		} else {
@@ -260,11 +259,11 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
     {
 	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
 	{
-	    freeNode_init(free_node, alloc_size);
 	    heapSize = headerBlock->blockSize - heap_offset;
 	    if (( alloc_size < heapSize )
 	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset)))
 	    {
+		freeNode_init(free_node, alloc_size);
 		freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 #ifdef __SASDebugPrint__
 	    } else {
diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 2441dd5..9aa5645 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -156,14 +156,13 @@ SPHContextFreeNoLock (SPHContext_t heap,
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
-    freeNode_init(free_node, alloc_size);
-
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
 		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
 		{
+		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 		    rc = 0;
 		} else {
-- 
2.43.0


From 111def89c8c01cf6626d2bff1b40b2b84086d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 12/71] fix: a heap free must refuse blocks that end beyond the
 heap

---
 src/sasindexnode.cpp       | 4 +++-
 src/sassimpleheap.cpp      | 8 ++++++--
 src/sasstringbtreenode.cpp | 4 +++-
 src/sphcontext.cpp         | 4 +++-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index 0e2b4ef..e4cc4d3 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -225,7 +225,9 @@ SASIndexNodeFreeNoLock (SASIndexNode_t heap,
       heapSize = headerBlock->blockSize - heap_offset;
       if ((alloc_size < heapSize)
 	  && ((unsigned long) free_block >=
-	      ((unsigned long) headerBlock + heap_offset)))
+	      ((unsigned long) headerBlock + heap_offset))
+	  && ((unsigned long) free_block - (unsigned long) headerBlock
+	      <= headerBlock->blockSize - alloc_size))
 	{
 	  freeNode_init (free_node, alloc_size);
 	  freeNode_deallocSpace (free_node, &headerBlock->blockFreeSpace,
diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index a82538f..384ee3d 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -119,7 +119,9 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
-		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
+		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
+		&& ((unsigned long) free_block - (unsigned long) headerBlock
+		    <= headerBlock->blockSize - alloc_size))
 		{
 		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
@@ -261,7 +263,9 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 	{
 	    heapSize = headerBlock->blockSize - heap_offset;
 	    if (( alloc_size < heapSize )
-	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset)))
+	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset))
+	    && ((unsigned long) nearObj - (unsigned long) headerBlock
+	        <= headerBlock->blockSize - alloc_size))
 	    {
 		freeNode_init(free_node, alloc_size);
 		freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 78c9e38..2df5197 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -238,7 +238,9 @@ SASStringBTreeNodeFreeNoLock (SASStringBTreeNode_t heap,
       heapSize = headerBlock->blockSize - heap_offset;
       if ((alloc_size < heapSize)
 	  && ((unsigned long) free_block >=
-	      ((unsigned long) headerBlock + heap_offset)))
+	      ((unsigned long) headerBlock + heap_offset))
+	  && ((unsigned long) free_block - (unsigned long) headerBlock
+	      <= headerBlock->blockSize - alloc_size))
 	{
 	  freeNode_deallocSpace ((FreeNode *) free_block,
 				 &headerBlock->blockFreeSpace, alloc_size);
diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 9aa5645..7926d6f 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -160,7 +160,9 @@ SPHContextFreeNoLock (SPHContext_t heap,
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
-		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
+		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
+		&& ((unsigned long) free_block - (unsigned long) headerBlock
+		    <= headerBlock->blockSize - alloc_size))
 		{
 		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
-- 
2.43.0


From fc8124913dea93fd2e7ccdc6a1ab2b056e684216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 13/71] fix: an interrupted wait must not count as owning the
 region semaphore

---
 src/sassim.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index dd802c4..1c0965f 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -655,7 +655,9 @@ seizeSASSem (SASAnchor_t * anchor)
 {
   int rc;
 #ifdef __GNUC__
-  rc = sem_wait (&anchor->SASSem);
+  do
+    rc = sem_wait (&anchor->SASSem);
+  while (rc != 0 && errno == EINTR);
   if (rc != 0)
     sas_printf ("seizeSASSem: sem_wait failed: %s\n", strerror (errno));
 #else
-- 
2.43.0


From f7e03fc4a93c7d47246c31afd4bd969628c7fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 14/71] fix: listing the region must read the bookkeeping roots
 under the region semaphore

---
 src/sassim.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 1c0965f..729aae0 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1491,10 +1491,11 @@ SASListFreeRegion (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.region;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.region;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1518,10 +1519,11 @@ SASListAllocatedRegion (void **blockAddr,
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1543,10 +1545,11 @@ int
 SASMaxDepthAllocatedRegion (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1560,10 +1563,11 @@ int
 SASMaxDepthUseMem (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1579,10 +1583,11 @@ SASListInUseMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1605,10 +1610,11 @@ SASListUncommittedMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.uncommitted;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.uncommitted;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1631,10 +1637,11 @@ SASListFreeMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.free;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.free;
   do
     {
       n = u->searchNextNode (u, keys);
-- 
2.43.0


From a5cf249b54e4569b3006f2f310530172fe7b3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 15/71] fix: a region reset must not re-initialise the
 semaphore it holds

---
 src/sassim.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 729aae0..781d5c5 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -783,8 +783,6 @@ initRegion ()
   p2Alloc (nn, SegmentSize);
   nn = &(anchor->allocated);
   p2AddUsed (nn, SegmentSize, anchorBlock);
-
-  initSASSem (anchor);
 }
 
 #if __GNUC__ && __GNUC_PREREQ(12,0)
@@ -1433,6 +1431,7 @@ SASJoinRegionByName (const char *store_name)
 	  sas_printf ("SASJoinRegion anchor created\n");
 #endif
 	  initRegion ();
+	  initSASSem (&((SASAnchorBlock_t *) memLow)->anchors);
 	  // CompactUseList is now the default for new regions.
 	  setSASCompactUseList ();
 	  // Allocate a guard page immediately after the region.
-- 
2.43.0


From 8f71f276e2376cf487d49426b96841661ba4db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 16/71] fix: an object lock must stay bound to its address
 while threads wait for it

---
 src/sasulock.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index df4c0eb..f967ff9 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -190,8 +190,13 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // So, if lockObj == NULL, that implies the user did not pass in
 // a lock object for their SasLockList and therefore, do not need us
 // to unlock it.
+// Bind this lock to its address first: once the list is unlocked other
+// threads that look for the address must find this lock.
   if (lockObj != NULL)
+    {
+      address = lockAddr;
       lockObj->unlock();
+    }
 
 
   // if this thread already has a write lock then
@@ -378,8 +383,13 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // to unlock another lock object.  If the caller did not
 // specify a lock object, then by default, lockObj is set = NULL,
 // so there's nothing to do.
+// Bind this lock to its address first: once the list is unlocked other
+// threads that look for the address must find this lock.
   if (lockObj != NULL)
+    {
+      address = lockAddr;
       lockObj->unlock();
+    }
 
 
   // if this thread already has the the write lock
@@ -508,8 +518,9 @@ SasUserLock::unlock(void)
   {
     total_readers_count--;
 // Zero-out the address datamember to indicate the lock object
-// is available for use.
-    if (total_readers_count==0)
+// is available for use, unless somebody still waits for it.
+    if ((total_readers_count==0) && (status == SasUserLock__not_exclusive)
+        && !readers_waiting && !writers_waiting)
 	address = NullAddress;
 
 #ifdef coherenceCheck
@@ -585,8 +596,9 @@ SasUserLock::unlock(void)
         return;
       }
       // Zero-out the address datamember to indicate the lock object
-      // is available for use.
-      address = NullAddress;
+      // is available for use, unless somebody still waits for it.
+      if (!readers_waiting && !writers_waiting)
+        address = NullAddress;
 
       writer_thread_id = 0;
       writer_task_id = 0;
-- 
2.43.0


From 4a4437ddc6530ac53d4aaba4cfeef204c18c880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 17/71] fix: a full reader table must make the next reader
 wait, not keep the lock's internal lock

---
 src/sasulock.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index f967ff9..a503728 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -260,6 +260,8 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
     }  // end scan for has reader lock already
   }    // end if(total_readers_count)
 
+  for (;;)
+  {
   // wait until all the writers are done.
   while (status == SasUserLock__exclusive || writers_waiting)
     {
@@ -340,17 +342,20 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
     }   // end for loop looking for a slot
 
   // if we get here, we still have the spin lock,
-  // and we did not find a slot to use.  I can't
-  // readily hang this thread, but I CAN hang onto
-  // the spin lock so that all other threads will
-  // lock up.  Oughta notice that.  Thus,
-  // I intentionally didn't release the spin lock
-  // here.
+  // and we did not find a slot to use.  Wait for one of
+  // the readers to leave, then try again.
 #ifdef mylockdebug
   fprintf (stderr, "%s\n", __FUNCTION__);
   fprintf (stderr, " thread[%ld,%ld] - no opne slots in reader table\n",
     (long int) this_task, (long int) this_thread);
 #endif
+  readers_waiting++;
+  spin_unlock(&data_lock);
+  sched_yield();
+  spin_lock(&data_lock);
+  if (readers_waiting)
+      readers_waiting--;
+  } // for
 }
 
 // Get non-shared write lock.  A thread can call this more than once.
-- 
2.43.0


From c7d0eea0fbc7b1ecc3aee9be3ba96e0e08a2d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 18/71] fix: the writer waiting for the last reader must not
 lose its wake-up to other writers

---
 src/sasulock.cpp | 22 +++++++++++++++-------
 src/sasulock.h   |  1 +
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index a503728..4b2ee87 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -65,6 +65,7 @@ SasUserLock::SasUserLock(vm_address_t addrToLock)
   sem_init(&readers_waiting_sem, 1, MAX_READER_THREADS);
   writers_waiting               = 0;
   sem_init(&writers_waiting_sem, 1, 1);
+  sem_init(&last_reader_sem, 1, 0);
   writer_thread_id              = 0;
   writer_task_id                = 0;
   writer_thread_lock_count      = 0;
@@ -91,6 +92,7 @@ SasUserLock::~SasUserLock(void)
   spin_lock(&data_lock);
   sem_destroy(&readers_waiting_sem);
   sem_destroy(&writers_waiting_sem);
+  sem_destroy(&last_reader_sem);
   if ((total_readers_count == 0) &&
       (readers_waiting == 0) &&
       (writers_waiting == 0))
@@ -459,15 +461,12 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
   // while still being used by the readers
   while (total_readers_count)
   {
-    // look like a writer so that the unlock code wakes us up.
-    writers_waiting++;
-
-    SasUserLock::thread_sleep(	(vm_address_t)&writers_waiting,
-				&writers_waiting_sem, &data_lock);
+    // only the last reader's unlock can let us in: do not share the
+    // semaphore of the writers that wait for us.
+    SasUserLock::thread_sleep(	(vm_address_t)&total_readers_count,
+				&last_reader_sem, &data_lock);
 
     spin_lock(&data_lock);
-    if (writers_waiting)
-      writers_waiting--;
   }
   // no more readers, so we now have the write lock
 
@@ -511,6 +510,7 @@ SasUserLock::unlock(void)
 #endif
   boolean_t	wakeup_writers = FALSE;
   boolean_t	wakeup_readers = FALSE;
+  boolean_t	wakeup_pending = FALSE;
   // mach_thread_self() is a ukernel call so let's
   // issue it only once in this routine.  This is
   // a local automatic variable so it is also
@@ -539,6 +539,9 @@ SasUserLock::unlock(void)
 #endif
     if ((total_readers_count==0) && (writers_waiting))
       wakeup_writers = TRUE;
+    // a writer that already owns the exclusive status waits for us
+    if ((total_readers_count==0) && (status == SasUserLock__exclusive))
+      wakeup_pending = TRUE;
     // unlock the reader that has it
     for (int i = 0; i < MAX_READER_THREADS; i++)
     {
@@ -639,6 +642,11 @@ SasUserLock::unlock(void)
   } // end else no readers waiting
   spin_unlock(&data_lock);
 
+  if (wakeup_pending)
+  {
+    SasUserLock::thread_wakeup(	(vm_address_t)&total_readers_count,
+				&last_reader_sem, WAKE_ONE);
+  }
   if (wakeup_writers)
   {
     SasUserLock::thread_wakeup(	(vm_address_t)&writers_waiting,
diff --git a/src/sasulock.h b/src/sasulock.h
index 8389b3a..f21ef54 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -123,6 +123,7 @@ private:
   sem_t                 readers_waiting_sem;
   volatile int          writers_waiting;
   sem_t                 writers_waiting_sem;
+  sem_t                 last_reader_sem;
   pid_t                 writer_task_id;
   pid_t                 writer_thread_id;
   volatile int          writer_thread_lock_count;
-- 
2.43.0


From ef06bcbe0818516305115ede3cfe2691b7126415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 19/71] fix: keep queue areas inside their block and strides
 aligned and describable

The stride was rounded with the allocation unit instead of its mask, a queue
without stride got an end one header page behind its block, a stride above
255 units does not fit the length field of the entry header, and a missing
buffer was dereferenced.
---
 src/sphmultipcqueue.cpp  | 38 +++++++++++++++++++++++++-------------
 src/sphsinglepcqueue.cpp | 32 +++++++++++++++++++++-----------
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index b7c39fd..183b3a3 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -69,6 +69,8 @@ typedef struct SPHMPMCQHeader
 #define DEFAULT_ALIGN_MASK	(~(sizeof(void*) + sizeof(void*) - 1))
 #define DEFAULT_ALLOC_UNIT	(sizeof(void*) + sizeof(void*))
 #define NODEFAULT_ENTRY_STRIDE (0)
+/* the length field of an entry header counts allocation units in 8 bits */
+#define MAX_ENTRY_STRIDE (255 * DEFAULT_ALLOC_UNIT)
 #define NODEFAULT_LOG_OPTIONS (0)
 
 static SPHMPMCQ_t
@@ -92,16 +94,19 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	char *qStart = NULL;
 	char *qEnd = NULL;
 	longPtr_t remaining;
-	longPtr_t round = (longPtr_t) DEFAULT_ALLOC_UNIT;
+	longPtr_t round = (longPtr_t) DEFAULT_ALLOC_UNIT - 1;
 
-	if (heapBlock)
-		initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
+	/* insure stride keep minimal alignment */
+	stride = (stride + round) & ~round;
+	if (!heapBlock || stride > MAX_ENTRY_STRIDE
+	    || buf_size < DEFAULT_PAGE + (block_size_t) stride)
+		return NULL;
+
+	initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
+	buf_size = buf_size - DEFAULT_PAGE;
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
-		/* insure stride keep minimal alignment */
-		stride = (stride + round) & ~round;
 		/* round buf_size to be an integral number of strides */
-		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
 		buf_size = buf_size * stride;
 		debug_printf ("%s stride=%d, buf_size=%ld\n",__FUNCTION__,stride,buf_size);
@@ -163,9 +168,12 @@ SPHMPMCQCreate (block_size_t buf_size)
 
 	debug_printf("%s\n",__FUNCTION__);
 	heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
-	if (heapBlock)
-		return SPHMPMCQInit (heapBlock, buf_size);
-	else
+	if (heapBlock) {
+		SPHMPMCQ_t queue = SPHMPMCQInit (heapBlock, buf_size);
+		if (!queue)
+			SASBlockDealloc (heapBlock, buf_size);
+		return queue;
+	} else
 		return NULL;
 }
 
@@ -177,10 +185,14 @@ SPHMPMCQCreateWithStride (block_size_t buf_size,
 
 	debug_printf("%-6d: %s\n",sphdeGetTID(),__FUNCTION__);
 	heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
-	if (heapBlock)
-		return SPHMPMCQInitWithStride (heapBlock, buf_size,
-						     stride, SPHSPCQUEUE_CIRCULAR);
-	else
+	if (heapBlock) {
+		SPHMPMCQ_t queue =
+			SPHMPMCQInitWithStride (heapBlock, buf_size,
+						stride, SPHSPCQUEUE_CIRCULAR);
+		if (!queue)
+			SASBlockDealloc (heapBlock, buf_size);
+		return queue;
+	} else
 		return NULL;
 }
 
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 3815c13..b3c35c0 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -77,6 +77,8 @@ typedef struct SPHPCQueueHeader
 #define DEFAULT_ALIGN_MASK	(~(sizeof(void*) + sizeof(void*) - 1))
 #define DEFAULT_ALLOC_UNIT	(sizeof(void*) + sizeof(void*))
 #define NODEFAULT_ENTRY_STRIDE (0)
+/* the length field of an entry header counts allocation units in 8 bits */
+#define MAX_ENTRY_STRIDE (255 * DEFAULT_ALLOC_UNIT)
 #define NODEFAULT_LOG_OPTIONS (0)
 
 SPHSinglePCQueue_t
@@ -88,23 +90,24 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   char *qStart = NULL;
   char *qEnd = NULL;
   longPtr_t remaining;
-  longPtr_t round = (longPtr_t) DEFAULT_ALLOC_UNIT;
+  longPtr_t round = (longPtr_t) DEFAULT_ALLOC_UNIT - 1;
 
-  if (heapBlock)
-    {
-      initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
-    }
+  /* insure stride keep minimal alignment */
+  stride = (stride + round) & ~round;
+  if (!heapBlock || stride > MAX_ENTRY_STRIDE
+      || buf_size < DEFAULT_PAGE + (block_size_t) stride)
+    return NULL;
+
+  initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
 #ifdef __SASDebugPrint__
   sas_printf
     ("SPHSinglePCQueueInitInternal(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",
      buf_seg, buf_size, stride, sizeof (SPHPCQueueHeader), round);
 #endif
+  buf_size = buf_size - DEFAULT_PAGE;
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
-      /* insure stride keep minimal alignment */
-      stride = (stride + round) & ~round;
       /* round buf_size to be an integral number of strides */
-      buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
       buf_size = buf_size * stride;
 #ifdef __SASDebugPrint__
@@ -177,7 +180,10 @@ SPHSinglePCQueueCreate (block_size_t buf_size)
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
   if (heapBlock)
     {
-      return SPHSinglePCQueueInit (heapBlock, buf_size);
+      SPHSinglePCQueue_t queue = SPHSinglePCQueueInit (heapBlock, buf_size);
+      if (!queue)
+	SASBlockDealloc (heapBlock, buf_size);
+      return queue;
     }
   else
     return NULL;
@@ -192,8 +198,12 @@ SPHSinglePCQueueCreateWithStride (block_size_t buf_size,
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
   if (heapBlock)
     {
-      return SPHSinglePCQueueInitWithStride (heapBlock, buf_size,
-					     stride, SPHSPCQUEUE_CIRCULAR);
+      SPHSinglePCQueue_t queue =
+	SPHSinglePCQueueInitWithStride (heapBlock, buf_size,
+					stride, SPHSPCQUEUE_CIRCULAR);
+      if (!queue)
+	SASBlockDealloc (heapBlock, buf_size);
+      return queue;
     }
   else
     return NULL;
-- 
2.43.0


From 0800f70e6bc901abb1560f8e4fdfb8d128ac6586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 20/71] fix: new and reset queues start with free entries only

Blocks come back from the region with their old contents beyond the first
4096 bytes and a reset leaves undelivered entries marked, so producers were
refused for ever and consumers were handed entries nobody had produced.
---
 src/sphmultipcqueue.cpp  | 14 ++++++++++++++
 src/sphsinglepcqueue.cpp | 15 +++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 183b3a3..6a38206 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -73,6 +73,18 @@ typedef struct SPHMPMCQHeader
 #define MAX_ENTRY_STRIDE (255 * DEFAULT_ALLOC_UNIT)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* A new or reset queue has only free entries, whatever the block held before. */
+static inline void
+SPHMPMCQClearEntries (SPHMPMCQHeader *queue)
+{
+	longPtr_t entry;
+
+	if (queue->default_entry_stride == NODEFAULT_ENTRY_STRIDE)
+		return;
+	for (entry = queue->startq; entry < queue->endq; entry += queue->default_entry_stride)
+		((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+}
+
 static SPHMPMCQ_t
 SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 		      block_size_t buf_size,
@@ -130,6 +142,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
 	heapBlock->options = options;
 	heapBlock->default_entry_stride = stride;
+	SPHMPMCQClearEntries (heapBlock);
 
 	remaining = DEFAULT_PAGE - sizeof (SPHMPMCQHeader);
 	heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -242,6 +255,7 @@ SPHMPMCQResetAsync (SPHMPMCQ_t queue)
 		sas_read_barrier ();
 		headerBlock->qhead = headerBlock->startq;
 		headerBlock->qtail = headerBlock->startq;
+		SPHMPMCQClearEntries (headerBlock);
 	} else {
 		rc = 1;
 		debug_printf("%s(%p) type check failed\n",__FUNCTION__,queue);
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index b3c35c0..3e73012 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -81,6 +81,19 @@ typedef struct SPHPCQueueHeader
 #define MAX_ENTRY_STRIDE (255 * DEFAULT_ALLOC_UNIT)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* A new or reset queue has only free entries, whatever the block held before. */
+static inline void
+SPHPCQueueClearEntries (SPHPCQueueHeader * queue)
+{
+  longPtr_t entry;
+
+  if (queue->default_entry_stride == NODEFAULT_ENTRY_STRIDE)
+    return;
+  for (entry = queue->startq; entry < queue->endq;
+       entry += queue->default_entry_stride)
+    ((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+}
+
 SPHSinglePCQueue_t
 SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
 			      block_size_t buf_size,
@@ -136,6 +149,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
   heapBlock->default_entry_stride = stride;
+  SPHPCQueueClearEntries (heapBlock);
 
   remaining = DEFAULT_PAGE - sizeof (SPHPCQueueHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -243,6 +257,7 @@ SPHSinglePCQueueResetAsync (SPHSinglePCQueue_t queue)
 	  sas_read_barrier ();
 	  headerBlock->qhead = headerBlock->startq;
 	  headerBlock->qtail = headerBlock->startq;
+	  SPHPCQueueClearEntries (headerBlock);
 	}
   else
 	{
-- 
2.43.0


From e47574ae828af25f9a60fab61edeb0e0e1da567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 21/71] fix: an entry another consumer already claimed does not
 make the queue non-empty

---
 src/sphmultipcqueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 6a38206..857dc9a 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -277,7 +277,8 @@ SPHMPMCQIsEmpty (SPHMPMCQ_t queue)
 		sas_read_barrier ();
 		longPtr_t temp = headerBlock->qtail;
 		SPHLFEntryHeader_t *entryPtr = (SPHLFEntryHeader_t *)temp;
-		if (!entryPtr->entryID.detail.valid)
+		if (!entryPtr->entryID.detail.valid
+		    || !entryPtr->entryID.detail.allocated)
 			rc = 1;
 	} else {
 		debug_printf("%s(%p) type check failed\n", __FUNCTION__,queue);
-- 
2.43.0


From 71bab92f91679d36f3886ea3c126b58da491d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 22/71] fix: order the reads of a queue entry before the entry
 is marked free

---
 src/sphmultipcqueue.cpp  | 2 ++
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 857dc9a..9f8dca6 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -544,6 +544,8 @@ SPHMPMCQFreeEntryDirect (SPHMPMCQ_t queue,
 		SPHLFEntryHeader_t *entryPtr =
 				(SPHLFEntryHeader_t *) entry;
 
+		/* The reads of the contents come before the entry is free.  */
+		sas_read_barrier ();
 		/* Mark the entry unallocated */
 		entryPtr->entryID.idUnit = 0;
 		rc = 1;
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 3e73012..3978fbc 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -870,7 +870,7 @@ SPHSinglePCQueueFreeNextEntryDirect (SPHSinglePCQueue_t queue,
            * the queue tail.
            */
           entryPtr->entryID.idUnit = 0;
-//          sas_write_barrier ();
+          sas_write_barrier ();
           headerBlock->qtail = tail;
           rc = 1;
         }
-- 
2.43.0


From 3bb12678198d8073e005f2f62be9a1956c9640ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 23/71] fix: SPHMPMCQPrefetch checks for its own queue type

---
 src/sphmultipcqueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 9f8dca6..abc2808 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -571,7 +571,7 @@ SPHMPMCQPrefetch (SPHMPMCQ_t queue)
 	int rc = 0;
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
-				  SAS_RUNTIME_PCQUEUE)) {
+				  SAS_RUNTIME_PCQUEUE_TM)) {
 		block_size_t logsize = headerBlock->blockHeader.blockSize;
 		block_size_t pagesz = getpagesize ();
 		volatile char *touchptr = (char *) queue;
-- 
2.43.0


From b94ca828f1a3f7a72228f459845176a966dd56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 24/71] fix: setting the prefetch options keeps the other
 options

The and-mask was not inverted: it kept the old prefetch bits and cleared all
others, a circular log became a plain one.
---
 src/sphlflogger.cpp      | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index a251bc3..85061ce 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -1018,7 +1018,7 @@ SPHLFLoggerSetCachePrefetch (SPHLFLogger_t log, int prefetch)
 	  if (prefetch == 1)
 	    prefetch_opt = SPHLFLOGGER_CACHE_PREFETCH0;
 	}
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 3978fbc..c693efe 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1226,7 +1226,7 @@ SPHSinglePCQueueSetCachePrefetch (SPHSinglePCQueue_t queue, int prefetch)
 	    prefetch_opt = SPHSPCQUEUE_CACHE_PREFETCH0;
 	}
 
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
-- 
2.43.0


From 9c880365e6bc7e783757079479e3c02ebf2c0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 25/71] fix: a log refuses entries its header or its area
 cannot describe

The length field of an entry header counts 16-byte units in 8 bits: a 4096
byte entry got length 0, on which the iterator stood still. An entry larger
than the area made a circular log recurse without end, a stride of 0 handed
out overlapping entries, and huge raw sizes wrapped the free pointer.
---
 src/sphlflogger.cpp | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 85061ce..1821d4f 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -61,6 +61,8 @@ typedef struct SASLFLoggerHeader
 #define DEFAULT_ALIGN_MASK	(~(sizeof(void*) + sizeof(void*) - 1))
 #define DEFAULT_ALLOC_UNIT	(sizeof(void*) + sizeof(void*))
 #define NODEFAULT_ENTRY_STRIDE (0)
+/* the length field of an entry header counts allocation units in 8 bits */
+#define MAX_ENTRY_SIZE (255 * DEFAULT_ALLOC_UNIT)
 #define NODEFAULT_LOG_OPTIONS (0)
 
 SPHLFLogger_t
@@ -72,12 +74,14 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   char *stackStart = NULL;
   char *stackEnd = NULL;
   longPtr_t remaining;
-  longPtr_t round = (longPtr_t) DEFAULT_ALLOC_UNIT;
+  longPtr_t round = (longPtr_t) DEFAULT_ALLOC_UNIT - 1;
+  longPtr_t entry_stride = (stride + round) & ~round;
 
-  if (heapBlock)
-    {
-      initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
-    }
+  if (!heapBlock || entry_stride > (longPtr_t) MAX_ENTRY_SIZE
+      || buf_size < DEFAULT_PAGE + (block_size_t) entry_stride)
+    return NULL;
+
+  initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
 #ifdef __SASDebugPrint__
   sas_printf
     ("SPHLFLoggerInitInternal(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",
@@ -91,7 +95,7 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->end_log_buf = (longPtr_t) stackEnd;
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
-  heapBlock->default_entry_stride = (stride + round) & ~round;
+  heapBlock->default_entry_stride = entry_stride;
 
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -134,7 +138,10 @@ SPHLFLoggerCreate (block_size_t buf_size)
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
   if (heapBlock)
     {
-      return SPHLFLoggerInit (heapBlock, buf_size);
+      SPHLFLogger_t log = SPHLFLoggerInit (heapBlock, buf_size);
+      if (!log)
+	SASBlockDealloc (heapBlock, buf_size);
+      return log;
     }
   else
     return NULL;
@@ -148,8 +155,12 @@ SPHLFCircularLoggerCreate (block_size_t buf_size, unsigned short stride)
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
   if (heapBlock)
     {
-      return SPHLFLoggerInitWithStride (heapBlock, buf_size,
-					stride, SPHLFLOGGER_CIRCULAR);
+      SPHLFLogger_t log =
+	SPHLFLoggerInitWithStride (heapBlock, buf_size,
+				   stride, SPHLFLOGGER_CIRCULAR);
+      if (!log)
+	SASBlockDealloc (heapBlock, buf_size);
+      return log;
     }
   else
     return NULL;
@@ -167,6 +178,10 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
       round = ~headerBlock->align_mask;
+      if (alloc_size
+	  > (block_size_t) (headerBlock->end_log_buf
+			    - headerBlock->start_log_buf))
+	return NULL;
       alloc_round = (alloc_size + round) & ~round;
       log_entry = __sync_fetch_and_add (&headerBlock->next_free, alloc_round);
 
@@ -206,8 +221,12 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
+      if (alloc_size > MAX_ENTRY_SIZE - sizeof (SPHLFLogHeader_t))
+	return NULL;
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      if (alloc_round > headerBlock->end_log_buf - headerBlock->start_log_buf)
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -335,6 +354,8 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (alloc_round == NODEFAULT_ENTRY_STRIDE)
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -466,8 +487,12 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
+      if (alloc_size > MAX_ENTRY_SIZE - sizeof (SPHLFLogHeader_t))
+	return NULL;
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      if (alloc_round > headerBlock->end_log_buf - headerBlock->start_log_buf)
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
@@ -544,6 +569,8 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (alloc_round == NODEFAULT_ENTRY_STRIDE)
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
-- 
2.43.0


From 878d1b275dba40fea5b0fd4bcb640bcab9def7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 26/71] fix: the synchronised log reset must not lose
 concurrent option updates

---
 src/sphlflogger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 1821d4f..7679c8f 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -942,7 +942,8 @@ SPHLFLoggerResetIfFullSync (SPHLFLogger_t log)
 						   next,
 						   logheader->start_log_buf);
 	      if (done)
-		logheader->options &= SPHLFLOGGER_CIRCULAR_RESETMASK;
+		sas_fetch_and_and (&logheader->options,
+				   SPHLFLOGGER_CIRCULAR_RESETMASK);
 	    }
 	  else
 	    {
-- 
2.43.0


From 9c9997f0fb285e20a4c6f9b2c4a4b578bbd4c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 27/71] fix: entries of a multi-producer queue start behind its
 header

---
 src/sphmultipcqueue.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index abc2808..0867fa0 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -57,11 +57,7 @@ typedef struct SPHMPMCQHeader
 
 #ifdef __LP64__
 #define HEAP_OFFSET 128
-#if 1
-#define DEFAULT_PAGE 256
-#else
 #define DEFAULT_PAGE 384
-#endif
 #else
 #define HEAP_OFFSET 64
 #define DEFAULT_PAGE 256
-- 
2.43.0


From 63ae99675f5eaa28676834d3f6c54ae1c5d52160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 28/71] fix: over-aligned structs no longer leave the log or
 queue entry

---
 src/sphlfentry.h    | 22 ++++++++--------------
 src/sphlflogentry.h | 22 ++++++++--------------
 2 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index 4e5743a..dfde6ad 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -388,22 +388,19 @@ SPHLFEntryGetStructPtr (SPHLFEntryHandle_t *handle,
 	unsigned long	len	= handle->remaining;
 	unsigned long	adjust	= __align - 1;
 	unsigned long	mask	= ~adjust;
+	unsigned long	pad;
 
 	ptr = (char*)
 		((((unsigned long)ptr)
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	pad = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= pad && len - pad >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - pad - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -443,22 +440,19 @@ SPHLFEntryAllocStruct (SPHLFEntryHandle_t *handle,
 	unsigned long	len	= handle->remaining;
 	unsigned long	adjust	= __align - 1;
 	unsigned long	mask	= ~adjust;
+	unsigned long	pad;
 
 	ptr = (char*)
 		((((unsigned long)ptr)
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	pad = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= pad && len - pad >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - pad - __size;
 	} else {
 		ptr = NULL;
 	}
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index b8147dd..744539c 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -320,22 +320,19 @@ SPHLFlogEntryGetStructPtr (SPHLFLoggerHandle_t *handle,
 	unsigned long	len	= handle->remaining;
 	unsigned long	adjust	= __align - 1;
 	unsigned long	mask	= ~adjust;
+	unsigned long	pad;
 
 	ptr = (char*)
 		((((unsigned long)ptr)
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	pad = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= pad && len - pad >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - pad - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -375,22 +372,19 @@ SPHLFlogEntryAllocStruct (SPHLFLoggerHandle_t *handle,
 	unsigned long	len	= handle->remaining;
 	unsigned long	adjust	= __align - 1;
 	unsigned long	mask	= ~adjust;
+	unsigned long	pad;
 
 	ptr = (char*)
 		((((unsigned long)ptr)
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	pad = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if (len >= pad && len - pad >= __size)
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - pad - __size;
 	} else {
 		ptr = NULL;
 	}
-- 
2.43.0


From 50be99941d7c38ed2fe7c83a950229d5e2410252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 29/71] fix: strings of log and queue entries are measured
 inside the entry and in full width

---
 src/sphlfentry.h    | 12 ++++++------
 src/sphlflogentry.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index dfde6ad..d42e227 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -473,7 +473,7 @@ SPHLFEntryAddString (SPHLFEntryHandle_t *handle,
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(value) + 1);
+	size_t		vlen	= strlen(value) + 1;
 	int		rc	= 0;
 
 	if (len >= vlen)
@@ -824,15 +824,15 @@ SPHLFEntryGetNextString (SPHLFEntryHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	char		*end	= (char*)memchr (ptr, '\0', len);
 	char		*value	= 0;
 
-	if (len >= vlen)
+	if (end != NULL)
 	{
+		end++;
 		value = ptr;
-		ptr += vlen;
-		len -= vlen;
-		handle->next = ptr;
+		len -= end - ptr;
+		handle->next = end;
 		handle->remaining = len;
 	}
 	return value;
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index 744539c..f83eb85 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -405,7 +405,7 @@ SPHLFlogEntryAddString (SPHLFLoggerHandle_t *handle,
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(value) + 1);
+	size_t		vlen	= strlen(value) + 1;
 	int		rc	= 0;
 
 	if (len >= vlen)
@@ -756,15 +756,15 @@ SPHLFlogEntryGetNextString (SPHLFLoggerHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	char		*end	= (char*)memchr (ptr, '\0', len);
 	char		*value	= 0;
 
-	if (len >= vlen)
+	if (end != NULL)
 	{
+		end++;
 		value = ptr;
-		ptr += vlen;
-		len -= vlen;
-		handle->next = ptr;
+		len -= end - ptr;
+		handle->next = end;
 		handle->remaining = len;
 	}
 	return value;
-- 
2.43.0


From 5a8d8ccb15d9856656fa943d03440c1f13ddc138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 30/71] fix: log portal: bound its list by the block and the
 counter width, start it empty, fill a slot before counting it, and iterate
 only over filled slots

---
 src/sphlogportal.cpp | 70 ++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 1eec5cb..15526fd 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -15,6 +15,7 @@
 #include <stdio.h>
 //#include "sasio.h"
 #include <stdlib.h>
+#include <string.h>
 #include "sasalloc.h"
 #include "freenode.h"
 #ifdef __SASDebugPrint__
@@ -61,6 +62,8 @@ typedef struct SASLogPortalHeader {
 #define DEFAULT_ALIGN_MASK	(~(sizeof(void*) + sizeof(void*) - 1))
 #define DEFAULT_ALLOC_UNIT	(sizeof(void*) + sizeof(void*))
 #define NODEFAULT_LOG_OPTIONS (0)
+/* list_size is an unsigned short */
+#define MAX_LIST_SIZE 65535
 
 SPHLogPortal_t
 SPHLogPortalInitInternal (void* buf_seg,  sas_type_t sasType,
@@ -73,12 +76,11 @@ SPHLogPortalInitInternal (void* buf_seg,  sas_type_t sasType,
     longPtr_t		remaining;
     longPtr_t		entries;
 
+    if (!heapBlock || buf_size < DEFAULT_PAGE + DEFAULT_ALLOC_UNIT)
+	return NULL;
 
-    if ( heapBlock )
-    {
-	initSOMSASBlock((SASBlockHeader*)heapBlock, sasType,
-	                buf_size, NULL);
-    }
+    initSOMSASBlock((SASBlockHeader*)heapBlock, sasType,
+	            buf_size, NULL);
 #ifdef __SASDebugPrint__
     sas_printf("SPHLogPortalInitInternal(%p, %ld, %d) sizeof(header)=%zu\n",
 	          buf_seg, buf_size, options,
@@ -89,6 +91,10 @@ SPHLogPortalInitInternal (void* buf_seg,  sas_type_t sasType,
     listEnd   = (char*) heapBlock + buf_size;
     remaining = (longPtr_t)listEnd - (longPtr_t)listStart;
     entries   = remaining / DEFAULT_ALLOC_UNIT;
+    if (entries > MAX_LIST_SIZE)
+	entries = MAX_LIST_SIZE;
+    /* free slots of the list are NULL, whatever the block held before */
+    memset (listStart, 0, entries * sizeof(SPHLFLogger_t));
     heapBlock->options = options;
     heapBlock->list_size = entries;
     heapBlock->log_buff_list = (SPHLFLogger_t*)listStart;
@@ -126,7 +132,10 @@ SPHLogPortalCreate (block_size_t buf_size)
     heapBlock = (SASBlockHeader*)SASBlockAlloc ((long)buf_size);
     if ( heapBlock )
     {
-	    return SPHLogPortalInit(heapBlock, buf_size);
+	    SPHLogPortal_t portal = SPHLogPortalInit(heapBlock, buf_size);
+	    if (!portal)
+		SASBlockDealloc (heapBlock, buf_size);
+	    return portal;
     } else
 	    return NULL;
 }
@@ -185,26 +194,37 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 		if (SOMSASCheckBlockSigAndType (logBlock,
 				SAS_RUNTIME_LOCKFREELOGGER) )
 		{
-			index = __sync_fetch_and_add (&headerBlock->next_free, 1);
-			if (index < headerBlock->list_size)
+			for (;;)
 			{
-				/* Insert the Logger in the Portal list */
-				headerBlock->log_buff_list[index] = log;
-				/* Link this Logger to the Portal as its Base Block
-				 * then link this Logger as the Next Block of the
-				 * previous Logger in the list.
-				 */
-				logBlock->baseBlock = (SASBlockHeader*)headerBlock;
-				if (index > 0)
+				bool done;
+
+				sas_read_barrier();
+				index = headerBlock->next_free;
+				if (index >= headerBlock->list_size)
+					break;
+				/* Insert the Logger in the Portal list if the slot
+				 * is still free. Either way the slot is in use then,
+				 * so it can be counted (by this or another thread).
+				 * A slot is never counted before it is filled. */
+				done = __sync_bool_compare_and_swap (&headerBlock->log_buff_list[index],
+						(SPHLFLogger_t) NULL, log);
+				__sync_bool_compare_and_swap (&headerBlock->next_free,
+						index, index + 1);
+				if (done)
 				{
-					logPrevBlock = (SASBlockHeader*)headerBlock->log_buff_list[index-1];
-					logPrevBlock->nextBlock = logBlock;
+					/* Link this Logger to the Portal as its Base Block
+					 * then link this Logger as the Next Block of the
+					 * previous Logger in the list.
+					 */
+					logBlock->baseBlock = (SASBlockHeader*)headerBlock;
+					if (index > 0)
+					{
+						logPrevBlock = (SASBlockHeader*)headerBlock->log_buff_list[index-1];
+						logPrevBlock->nextBlock = logBlock;
+					}
+					rc = log;
+					break;
 				}
-
-				rc = log;
-			} else {
-				if (index > headerBlock->list_size)
-					index = __sync_fetch_and_add (&headerBlock->next_free, -1);
 			}
 	#ifdef __SASDebugPrint__
 		} else {
@@ -342,7 +362,7 @@ SPHLogPortalEntries (SPHLogPortal_t portal)
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free < headerBlock->list_size )
+		if ( headerBlock->next_free <= headerBlock->list_size )
 		{
 			rc = headerBlock->next_free;
 #ifdef __SASDebugPrint__
@@ -447,7 +467,7 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
     			longPtr_t cur = iterator->current;
     			longPtr_t nxt = cur + 1;
     			log0 = headerBlock->log_buff_list[cur];
-    			if (log0 && (nxt <= iterator->next_free)
+    			if (log0 && (nxt < headerBlock->next_free)
     			&& (nxt < iterator->capacity))
     			{   /* nxt is within the allocated list.  */
     				log = headerBlock->log_buff_list[nxt];
-- 
2.43.0


From 29576453debdada70d402d50572c514049aada86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 31/71] fix: lock-free heap: refuse allocations of zero bytes,
 they claimed the rest of a bitmap word

---
 src/sphlockfreeheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 03bbfe6..8307c78 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -182,7 +182,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #else
       maxAlloc = MAX_UNITS << unit_shift;
 #endif
-      if (alloc_size < maxAlloc)
+      if ((alloc_size > 0) && (alloc_size < maxAlloc))
 	{
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
@@ -262,7 +262,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
-      if ((alloc_size < maxAlloc)
+      if ((alloc_size > 0) && (alloc_size < maxAlloc)
 	  && bitv_popcountl_one (alignment) && (alignment <= (maxAlign)))
 	{
 	  ssize_t offset = -1;
-- 
2.43.0


From 8eeedffa7f0fe270b1e79681707a7f0bc3491ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 32/71] fix: heap frees refuse a size of zero and addresses
 that are no multiple of the free node size

---
 src/sasindexnode.cpp       | 3 ++-
 src/sassimpleheap.cpp      | 6 ++++--
 src/sasstringbtreenode.cpp | 3 ++-
 src/sphcontext.cpp         | 3 ++-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index e4cc4d3..3164ff3 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -223,7 +223,8 @@ SASIndexNodeFreeNoLock (SASIndexNode_t heap,
   if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
     {
       heapSize = headerBlock->blockSize - heap_offset;
-      if ((alloc_size < heapSize)
+      if ((alloc_size > 0) && (alloc_size < heapSize)
+	  && (((unsigned long) free_block & nodeRound) == 0)
 	  && ((unsigned long) free_block >=
 	      ((unsigned long) headerBlock + heap_offset))
 	  && ((unsigned long) free_block - (unsigned long) headerBlock
diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 384ee3d..293b2eb 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -118,7 +118,8 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
-		if (( alloc_size < heapSize )
+		if (( alloc_size > 0 ) && ( alloc_size < heapSize )
+		&& ( ((unsigned long)free_block & nodeRound) == 0 )
 		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
 		&& ((unsigned long) free_block - (unsigned long) headerBlock
 		    <= headerBlock->blockSize - alloc_size))
@@ -262,7 +263,8 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
 	{
 	    heapSize = headerBlock->blockSize - heap_offset;
-	    if (( alloc_size < heapSize )
+	    if (( alloc_size > 0 ) && ( alloc_size < heapSize )
+	    && (((unsigned long)nearObj & nodeRound) == 0)
 	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset))
 	    && ((unsigned long) nearObj - (unsigned long) headerBlock
 	        <= headerBlock->blockSize - alloc_size))
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 2df5197..9c16361 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -236,7 +236,8 @@ SASStringBTreeNodeFreeNoLock (SASStringBTreeNode_t heap,
   if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
     {
       heapSize = headerBlock->blockSize - heap_offset;
-      if ((alloc_size < heapSize)
+      if ((alloc_size > 0) && (alloc_size < heapSize)
+	  && (((unsigned long) free_block & nodeRound) == 0)
 	  && ((unsigned long) free_block >=
 	      ((unsigned long) headerBlock + heap_offset))
 	  && ((unsigned long) free_block - (unsigned long) headerBlock
diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 7926d6f..215e75c 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -159,7 +159,8 @@ SPHContextFreeNoLock (SPHContext_t heap,
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
-		if (( alloc_size < heapSize )
+		if (( alloc_size > 0 ) && ( alloc_size < heapSize )
+		&& ( ((unsigned long)free_block & nodeRound) == 0 )
 		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
 		&& ((unsigned long) free_block - (unsigned long) headerBlock
 		    <= headerBlock->blockSize - alloc_size))
-- 
2.43.0


From 41461fe99a9e6dcb2f485a3d35fe56d936313409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 33/71] fix: NearDealloc of compound heaps, B-trees and indexes
 checks the page it found before clearing and freeing it

---
 src/sascompoundheap.cpp |  8 ++++++--
 src/sasindex.cpp        | 12 ++++++++----
 src/sasstringbtree.cpp  | 14 ++++++++++----
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 13e9fe2..0558ede 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -792,7 +792,9 @@ SASCompoundHeapNearDeallocNoLock (void *nearObj)
       if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
 				      SAS_RUNTIME_COMPOUNDHEAP))
 	{
-	  SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
+	  if (SOMSASCheckBlockSig (nearHeader)
+	      && SASCompoundHeapContains (compoundHeader, nearHeader))
+	    SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
 #ifdef __SASDebugPrint__
 	}
       else
@@ -823,7 +825,9 @@ SASCompoundHeapNearDealloc (void *nearObj)
 				      SAS_RUNTIME_COMPOUNDHEAP))
 	{
 	  SASLock (compoundHeader, SasUserLock__WRITE);
-	  SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
+	  if (SOMSASCheckBlockSig (nearHeader)
+	      && SASCompoundHeapContains (compoundHeader, nearHeader))
+	    SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
 	  SASUnlock (compoundHeader);
 #ifdef __SASDebugPrint__
 	}
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 60bb9bd..8df4140 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -860,8 +860,10 @@ SASIndexNearDeallocNoLock(void *nearObj)
 	    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)btreeHeader, 
 		                                SAS_RUNTIME_INDEX) )
 	    {
-			SASIndexFreeInternal ((SASIndexHeader*)btreeHeader, 
-			                            nearHeader);
+			if (SOMSASCheckBlockSig (nearHeader)
+			&& SASIndexContains ((SASIndexHeader*)btreeHeader, nearHeader))
+				SASIndexFreeInternal ((SASIndexHeader*)btreeHeader,
+				                            nearHeader);
 #ifdef __SASDebugPrint__
 	    } else {
 	    	sas_printf("SASIndexNearDeallocNoLock(%p) type check failed near=%p compound=%p\n", 
@@ -890,8 +892,10 @@ SASIndexNearDealloc(void *nearObj)
 		                                SAS_RUNTIME_INDEX))
 	    {
     		SASLock(btreeHeader, SasUserLock__WRITE);
-			SASIndexFreeInternal ((SASIndexHeader*)btreeHeader,
-			                            nearHeader);
+			if (SOMSASCheckBlockSig (nearHeader)
+			&& SASIndexContains ((SASIndexHeader*)btreeHeader, nearHeader))
+				SASIndexFreeInternal ((SASIndexHeader*)btreeHeader,
+				                            nearHeader);
 			SASUnlock(btreeHeader);
 #ifdef __SASDebugPrint__
 	    } else {
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index cddbe91..edcf9f8 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -937,8 +937,11 @@ SASStringBTreeNearDeallocNoLock (void *nearObj)
       if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) btreeHeader,
 				      SAS_RUNTIME_STRINGBTREE))
 	{
-	  SASStringBTreeFreeInternal ((SASStringBTreeHeader *) btreeHeader,
-				      nearHeader);
+	  if (SOMSASCheckBlockSig (nearHeader)
+	      && SASStringBTreeContains ((SASStringBTreeHeader *) btreeHeader,
+					 nearHeader))
+	    SASStringBTreeFreeInternal ((SASStringBTreeHeader *) btreeHeader,
+					nearHeader);
 #ifdef __SASDebugPrint__
 	}
       else
@@ -969,8 +972,11 @@ SASStringBTreeNearDealloc (void *nearObj)
 				      SAS_RUNTIME_STRINGBTREE))
 	{
 	  SASLock (btreeHeader, SasUserLock__WRITE);
-	  SASStringBTreeFreeInternal ((SASStringBTreeHeader *) btreeHeader,
-				      nearHeader);
+	  if (SOMSASCheckBlockSig (nearHeader)
+	      && SASStringBTreeContains ((SASStringBTreeHeader *) btreeHeader,
+					 nearHeader))
+	    SASStringBTreeFreeInternal ((SASStringBTreeHeader *) btreeHeader,
+					nearHeader);
 	  SASUnlock (btreeHeader);
 #ifdef __SASDebugPrint__
 	}
-- 
2.43.0


From dafb888a88ec1709fb0090d2e724861f5b271f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 34/71] fix: stack: refuse sizes that wrap when rounded and
 returns of unaligned positions

---
 src/sassimplestack.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 0ac1235..6183416 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -111,7 +111,8 @@ SASSimpleStackAllocNoLock (SASSimpleStack_t heap, block_size_t alloc_size)
       round = ~headerBlock->align_mask;
       stacknext = (headerBlock->next_stack + alloc_size + round)
 	& headerBlock->align_mask;
-      if (stacknext <= headerBlock->end_stack)
+      if ((alloc_size <= headerBlock->end_stack - headerBlock->next_stack)
+	  && (stacknext <= headerBlock->end_stack))
 	{
 	  stack_alloc = headerBlock->next_stack;
 	  headerBlock->next_stack = stacknext;
@@ -260,8 +261,20 @@ SASSimpleStackDeallocNoLock (SASSimpleStack_t heap, void *stack_pointer)
       if ((new_sp >= headerBlock->start_stack)
 	  && (new_sp <= headerBlock->end_stack))
 	{
-	  headerBlock->next_stack = new_sp;
-	  rc = 0;
+	  if ((new_sp & headerBlock->align_mask) == new_sp)
+	    {
+	      headerBlock->next_stack = new_sp;
+	      rc = 0;
+	    }
+	  else
+	    {
+	      rc = -3;
+#ifdef __SASDebugPrint__
+	      sas_printf
+		("SASSimpleStackDeallocNoLock(%p, %p) alignment check failed\n",
+		 heap, stack_pointer);
+#endif
+	    }
 	}
       else
 	{
-- 
2.43.0


From c67b18371e23dda69cc4d111e452988c94209094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 35/71] fix: lock-free heap: refuse to free addresses in its
 own header

---
 src/sphlockfreeheap.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 8307c78..4646429 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -376,10 +376,16 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 	  block_size_t index = offset >> unit_shift;
 	  block_size_t word_index = index / bits_per_long;
 	  block_size_t cnt = heapHdr->vec_cnt;
+	  block_size_t header_size =
+	    (block_size_t) & heapHdr->vecbuf[cnt * 2] - (block_size_t) heap;
 	  block_size_t maxAlloc;
 	  block_size_t allocated = 1;
 
-	  if (alloc_size > 0)
+	  if (offset < header_size)
+	    {			/* the header was never allocated */
+	      allocated = 0;
+	    }
+	  else if (alloc_size > 0)
 	    {			/* only perform this check if alloc_size non-zero */
 	      maxAlloc = MAX_UNITS << unit_shift;
 
-- 
2.43.0


From d27ee3cb0c9371f34af0461609f5ef95bfdb4eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 36/71] fix: SASNearDealloc and SASSOMHeapDealloc check that
 the piece lies in the block before freeing it

---
 src/sasalloc.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index d4e9bdb..c382e54 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -615,6 +615,19 @@ void* SASNearAlloc (void *nearObj, long allocSize)
     return temp;
 }
 
+/* A piece of storage can only be freed into a block it lies in.  */
+static int blockContains (SASBlockHeader *block, void *memAddr, long allocSize)
+{
+    unsigned long	offset = (unsigned long)memAddr - (unsigned long)block;
+
+    return (allocSize > 0)
+	&& (((unsigned long)memAddr & nodeRound) == 0)
+	&& ((unsigned long)memAddr >= (unsigned long)block
+				      + sizeof (SASBlockHeader))
+	&& ((unsigned long)allocSize < block->blockSize)
+	&& (offset <= block->blockSize - (unsigned long)allocSize);
+}
+
 void
 SASSOMHeapDealloc (SASBlockHeader *block, void *memAddr, long allocSize)
 {
@@ -622,7 +635,7 @@ SASSOMHeapDealloc (SASBlockHeader *block, void *memAddr, long allocSize)
     sas_printf("SASSOMHeapDealloc in %p @ %p for %ld\n",
 			    block, memAddr, allocSize);
 #endif
-    if (block)
+    if (block && blockContains(block, memAddr, allocSize))
     {
 	freeNode_deallocSpace(((freeNode *)memAddr), &block->blockFreeSpace,
 					allocSize);
@@ -643,8 +656,9 @@ void  SASNearDealloc (void *memAddr, long allocSize)
 #endif
     if (block)
     {
-	freeNode_deallocSpace(((freeNode *)memAddr), &block->blockFreeSpace,
-					allocSize);
+	if (blockContains(block, memAddr, allocSize))
+	    freeNode_deallocSpace(((freeNode *)memAddr),
+					&block->blockFreeSpace, allocSize);
     }
     else {
 #ifdef __SAS__
-- 
2.43.0


From f13be66e8f33610f5db2394484ac9958a3703afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 37/71] fix: splitting a block of the region kept only 32 bits
 of its offset, so blocks above 4 GB were merged into blocks in use

---
 src/sassim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 781d5c5..550ec8c 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -416,7 +416,8 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
   unsigned long keys;
   unsigned long result = 0;
   unsigned int j;
-  unsigned int ui, uj;
+  unsigned long ui;
+  unsigned int uj;
 
 #ifdef __SASDebugPrint__
   sas_printf ("p2Alloc (%p, %lu)\n", root, size);
-- 
2.43.0


From ee976b8f19ef95201473c2e8554a92d1f63d8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 38/71] fix: lock-free heap: compute its limits at full width

---
 src/bitv.c              | 16 ++++++++--------
 src/sphlockfreeheap.cpp |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 7472138..2518ae2 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -76,8 +76,8 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
-      int i;
-      int start = __builtin_clzl (cur_msk);
+      long i;
+      long start = __builtin_clzl (cur_msk);
       if (start > (bits_per_long - alloc_units))
 	return -1;
 
@@ -228,7 +228,7 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
-  if (align != (1 << (align_shift + cb->alloc_shift - 1)))
+  if (align != (1UL << (align_shift + cb->alloc_shift - 1)))
     {
 #ifdef PRINT_DEBUG
       printf ("error align value must be a power of 2\n");
@@ -243,8 +243,8 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
-      int i;
-      int start = __builtin_clzl (cur_msk);
+      long i;
+      long start = __builtin_clzl (cur_msk);
 
       start = (start + align_units - 1) & (~(align_units - 1));
       if (start > (bits_per_long - alloc_units))
@@ -312,7 +312,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
-  if (align != (1 << (align_shift + cb->alloc_shift - 1)))
+  if (align != (1UL << (align_shift + cb->alloc_shift - 1)))
     {
 #ifdef PRINT_DEBUG
       printf ("error align value must be a power of 2\n");
@@ -327,8 +327,8 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
-      int i;
-      int start = __builtin_clzl (cur_msk);
+      long i;
+      long start = __builtin_clzl (cur_msk);
 
       start = (start + align_units - 1) & (~(align_units - 1));
       if (start > (bits_per_long - alloc_units))
diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 4646429..b05b93e 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -180,7 +180,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #if 0
       maxAlloc = bits_per_long << (unit_shift - 1);
 #else
-      maxAlloc = MAX_UNITS << unit_shift;
+      maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
 #endif
       if ((alloc_size > 0) && (alloc_size < maxAlloc))
 	{
@@ -259,7 +259,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = bits_per_long << (unit_shift - 1);
       maxAlign = bits_per_long << (unit_shift);
 #else
-      maxAlloc = MAX_UNITS << unit_shift;
+      maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
       if ((alloc_size > 0) && (alloc_size < maxAlloc)
@@ -387,7 +387,7 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 	    }
 	  else if (alloc_size > 0)
 	    {			/* only perform this check if alloc_size non-zero */
-	      maxAlloc = MAX_UNITS << unit_shift;
+	      maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
 
 	      allocated = bitv_allocated_size_chk (&heapHdr->bitv_cb,
 						   &heapHdr->
@@ -653,7 +653,7 @@ SPHLockFreeHeapNearAllocNoLock (void *nearObj, block_size_t alloc_size)
 #if 0
 	  maxAlloc = bits_per_long << (unit_shift - 1);
 #else
-	  maxAlloc = MAX_UNITS << unit_shift;
+	  maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
 #endif
 	  if (alloc_size < maxAlloc)
 	    {
-- 
2.43.0


From c49e0037e166ff0e192bad65340bbd5587369516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 39/71] fix: SPHLockFreeHeapInit refuses heaps with more bitmap
 words than its counter can hold

---
 src/sphlockfreeheap.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index b05b93e..ce2d3b6 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -60,11 +60,16 @@ SPHLockFreeHeapInit (void *heap_seg, sas_type_t sasType,
       bitv_word *endbuf_vec;
       void *endbuf;
       size_t header_size = heap_offset;
+      size_t words = (heap_size / bits_per_long) / unit_size;
 
+      /* the header and both bitmaps must fit in the units that are marked
+         allocated below */
+      if (words > (unsigned short) -1)
+	return (SPHLockFreeHeap_t) -1;
       initSOMSASBlock (heapBlock, sasType, heap_size, NULL);
       bitv_init (&heapHdr->bitv_cb, unit_size);
 
-      heapHdr->vec_cnt = (heap_size / bits_per_long) / unit_size;
+      heapHdr->vec_cnt = words;
       heapHdr->alloc_vec = heapHdr->vecbuf;
       heapHdr->endmrk_vec = &heapHdr->vecbuf[heapHdr->vec_cnt];
       endbuf_vec = &heapHdr->vecbuf[(heapHdr->vec_cnt) * 2];
-- 
2.43.0


From 8da48cfb6206b0848f6a51135f8b7ddf8a03f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 40/71] fix: SASFindHeader looks at every power of two
 boundary, near operations on blocks of 2K, 8K, 32K, 128K and others used a
 foreign block

---
 src/sasalloc.cpp | 90 +++++-------------------------------------------
 1 file changed, 8 insertions(+), 82 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index c382e54..eedc213 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -460,91 +460,17 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
          ((temp >= __SAS_TEMP_ADDRESS) && (temp < (__SAS_TEMP_FREE)))) {
 #endif
 #endif
-	temp = temp & block__mask512;
-	block = (SASBlockHeader *)temp;
-
-#ifdef __SASDebugPrint__
-   sas_printf("SASFindHeader mask=%lx -> %p \n",block__mask512, block);
-#endif
-	if ( !SOMSASCheckBlockSig(block) )
+	/* Blocks start at a multiple of their size, so look at every
+	   power of two boundary at or below the address for a live block. */
+	for (uintptr_t size = block__align512; size <= block__max; size <<= 1)
 	{
-	    temp = temp & block__mask1k;
-	    block = (SASBlockHeader *)temp;
+	    SASBlockHeader *header = (SASBlockHeader *)(temp & ~(size - 1));
 
-	    if ( !SOMSASCheckBlockSig(block) )
+	    if ( SOMSASCheckBlockSig(header) )
 	    {
-		temp = temp & block__mask4k;
-		block = (SASBlockHeader *)temp;
-
-		if ( !SOMSASCheckBlockSig(block) )
-		{
-#ifdef block__mask16k
-		  temp = temp & block__mask16k;
-		  block = (SASBlockHeader *)temp;
-
-		  if ( !SOMSASCheckBlockSig(block) )
-		  {
-#endif
-		    temp = temp & block__mask64k;
-		    block = (SASBlockHeader *)temp;
-
-		    if ( !SOMSASCheckBlockSig(block) )
-		    {
-#ifdef block__mask256k
-		      temp = temp & block__mask256;
-		      block = (SASBlockHeader *)temp;
-
-		      if ( !SOMSASCheckBlockSig(block) )
-		      {
-#endif
-			temp = temp & block__mask1m;
-			block = (SASBlockHeader *)temp;
-
-			if ( !SOMSASCheckBlockSig(block) )
-			{
-			    temp = temp & block__mask4m;
-			    block = (SASBlockHeader *)temp;
-
-			    if ( !SOMSASCheckBlockSig(block) )
-			    {
-				temp = temp & block__mask16m;
-				block = (SASBlockHeader *)temp;
-
-				if ( !SOMSASCheckBlockSig(block) )
-				{
-#ifdef block__mask64m
-				  temp = temp & block__mask64m;
-				  block = (SASBlockHeader *)temp;
-
-				  if ( !SOMSASCheckBlockSig(block) )
-				  {
-#ifdef block__mask256m
-				    temp = temp & block__mask256m;
-				    block = (SASBlockHeader *)temp;
-
-				    if ( !SOMSASCheckBlockSig(block) )
-				    {
-				      block = NULL;
-				    }
-#else
-				    block = NULL;
-#endif
-				  }
-#else
-				    block = NULL;
-#endif
-				}
-			    }
-			}
-#ifdef block__mask256k
-		      }
-#endif
-		    }
-#ifdef block__mask16k
-		  }
-#endif
-		}
-	   }
+		block = header;
+		break;
+	    }
 	}
 #ifdef __SASDebugPrint__
 	    sas_printf("SASFindHeader low=%lx, high=%lx, tmp_low=%lx, tmp_hign=%lx\n",
-- 
2.43.0


From b54554b0180082840e1e1c86c3511c1aa2294579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 41/71] fix: a store file that cannot be sized is closed and
 removed again

---
 src/sasstname.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sasstname.c b/src/sasstname.c
index b168b7c..55ffa7e 100644
--- a/src/sasstname.c
+++ b/src/sasstname.c
@@ -104,6 +104,7 @@ SASSegStoreCreateByName (char *name)
 	      sas_printf ("SASSegStoreCreateByName close failed; %s\n",
 			  strerror (errno));
 	      sas_printf (" Store Name %s\n", name);
+	      remove (name);
 	    }
 	}
       else
@@ -111,6 +112,8 @@ SASSegStoreCreateByName (char *name)
 	  sas_printf ("SASSegStoreCreateByName truncate failed with %s\n",
 		      strerror (errno));
 	  sas_printf (" Store Name %s\n", name);
+	  close (fd);
+	  remove (name);
 	}
     }
   else
-- 
2.43.0


From 000d017085d4908ebdfcfddd33d24261e2a2dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 42/71] fix: a segment stays recorded as attached when it
 cannot be unmapped, and removing it reports that

---
 src/sassim.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 550ec8c..513c827 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -890,7 +890,8 @@ SASDetachSegByAddr (void *segAddr, unsigned long size)
       rc = 3;
     }
 #endif
-  mem_IDs[segIndex] = 0;
+  if (!rc)
+    mem_IDs[segIndex] = 0;
 
   return rc;
 }
@@ -918,8 +919,7 @@ SASRemoveSegByAddr (void *segAddr, unsigned long size)
     }
 #endif
   SASSegNameIndexed (&name[0], segIndex);
-  rc = SASSegStoreRemoveByName (name);
-  if (rc)
+  if (SASSegStoreRemoveByName (name))
     {
       sas_printf ("SASRemoveSegByAddr, SASSegStoreRemoveByName failed\n");
       rc = 1;
-- 
2.43.0


From c76d545edbc8d30fb1dd47dfc1bb5e56b806f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 43/71] fix: a new segment that cannot be attached leaves
 neither its store file nor a lost segment address

---
 src/sassim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 513c827..ac0817a 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -950,6 +950,8 @@ SASCreateSegByAddr (void *segAddr, unsigned long size)
     {
       rc = SASAttachSegByName (segAddr, size,
 			       segIndex, name, createOnlyFlags);
+      if (rc)
+	SASSegStoreRemoveByName (name);
     }
 
   return rc;
@@ -1159,6 +1161,7 @@ SASBlockAllocNoLock (unsigned long blockSize)
 	      else
 		{
 		  sas_printf ("SASBlockAlloc attach failed %lx\n", blockSize);
+		  p2Dealloc (nn, SegmentSize, segAddr);
 		}
 	    }
 	  else
@@ -1282,6 +1285,8 @@ SASCreateAnchorSeg (void *regionBase, size_t regionSize, size_t segmentSize)
 	  memLow = (unsigned long) regionBase;
 	  memHigh = memLow + regionSize;
 	}
+      else
+	SASSegStoreRemoveByName (storeName);
     }
 
   return rc;
-- 
2.43.0


From 0e2639e12511b26fed533dcd81aa109ba855bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 44/71] fix: SASAllocateShmName reports a failed ftok, joining
 a store without a directory crashed in the lock tables

---
 src/sasshm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasshm.c b/src/sasshm.c
index 4a1e01a..2c42248 100644
--- a/src/sasshm.c
+++ b/src/sasshm.c
@@ -160,7 +160,7 @@ int
 SASAllocateShmName (char *key_name, void *addr, long size)
 {
   key_t shm_key;
-  int shm_id = 0;
+  int shm_id = -1;
   int proj_id;
   /* force unique keys between 32-/64-bit modes */
 #ifdef __WORDSIZE_64
@@ -183,7 +183,7 @@ int
 SASAllocateShmNameProj (char *key_name, char proj, void *addr, long size)
 {
   key_t shm_key;
-  int shm_id = 0;
+  int shm_id = -1;
   char lower = ('a' - 'A');
   int proj_id;
   /* force unique keys between 32-/64-bit modes */
-- 
2.43.0


From 2a85d0c519a4542dbbddbeabe2c9e1e634900238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 45/71] fix: segment names are bounded by their buffer, joining
 refuses empty and too long store names

---
 src/sassim.cpp  | 10 ++++++++--
 src/sasstname.c |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index ac0817a..e1839d4 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1394,10 +1394,16 @@ SASJoinRegionByName (const char *store_name)
 
   if (store_name != NULL)
     {
-      int pathlen, malloclen;
+      size_t pathlen, malloclen;
       pathlen = strlen (store_name);
-      malloclen = (pathlen + 2 + 8) & ~(7);
+      /* leave room for the name of a segment file in the store */
+      if (pathlen == 0 || pathlen + sizeof ("/SAS0123456789ABCDEF.DAT")
+	  > STORE_NAME_SIZE)
+	return (3);
+      malloclen = (pathlen + 2 + 8) & ~7UL;
       sasStorePath = (char *) malloc (malloclen);
+      if (sasStorePath == NULL)
+	return (2);
       sasStorePath = strcpy (sasStorePath, store_name);
       if (sasStorePath[pathlen - 1] == '/')
 	sasStorePath[pathlen - 1] = 0;
diff --git a/src/sasstname.c b/src/sasstname.c
index 55ffa7e..1f4e74b 100644
--- a/src/sasstname.c
+++ b/src/sasstname.c
@@ -28,9 +28,9 @@ char *
 SASSegNameIndexed (char *name, sasseg_t segnum)
 {
   if (sasStorePath != NULL)
-    sas_sprintf (name, "%s/SAS%05lX.DAT", sasStorePath, segnum);
+    snprintf (name, STORE_NAME_SIZE, "%s/SAS%05lX.DAT", sasStorePath, segnum);
   else
-    sas_sprintf (name, "SAS%05lX.DAT", segnum);
+    snprintf (name, STORE_NAME_SIZE, "SAS%05lX.DAT", segnum);
 
 #ifdef __SASDebugPrint__
   sas_printf ("SASSegNameIndexed (%ld) = <%s>\n", segnum, name);
-- 
2.43.0


From 4cb74de3a3fa4d95f972e638ded05f1d262c2635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 46/71] fix: a failed join sets up neither lock tables nor
 fault handler and reports missing lock tables

---
 src/saslock.cpp |  4 +++-
 src/saslock.h   |  3 ++-
 src/sassim.cpp  | 23 +++++++++++++++++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index d1aa026..4508ccd 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -43,7 +43,7 @@ SASLockReset (void)
     SasLockOwner = 1;
 }
 
-void
+int
 SASLockInit (void)
 {
     char *lock_addr = (char *)__SAS_TEMP_ADDRESS;
@@ -63,7 +63,9 @@ SASLockInit (void)
 	} else {
 	    ml = (SasMasterLock*) getSASBlockSpecial (lock_addr); 
 	}
+	return 0;
     }
+    return 1;
 }
 
 void
diff --git a/src/saslock.h b/src/saslock.h
index ca1a890..5866883 100644
--- a/src/saslock.h
+++ b/src/saslock.h
@@ -83,8 +83,9 @@ SASLockReset (void);
 *	This shm segment will hold the shared lock tables that hold active
 *	symbolic locks.
 *
+*	@return 0 if the lock tables are usable, otherwise nonzero.
 */
-extern __C__ void
+extern __C__ int
 SASLockInit (void);
 
 
diff --git a/src/sassim.cpp b/src/sassim.cpp
index e1839d4..01c8704 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1418,6 +1418,8 @@ SASJoinRegionByName (const char *store_name)
   mem_IDs = (int *) malloc (memIDsize);
   if (mem_IDs == NULL)
     {
+      free (sasStorePath);
+      sasStorePath = NULL;
       return (2);
     }
   else
@@ -1464,8 +1466,25 @@ SASJoinRegionByName (const char *store_name)
 	    (MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED), -1, 0);
     }
 
-  SASLockInit ();
-  SASEnableSigSegv ();
+  if (!rc)
+    {
+      if (SASLockInit ())
+	{
+	  SASDetachAllocatedSegs ();
+	  SASDetachSegByAddr ((void *) memLow, SegmentSize);
+	  munmap ((char *) getMemHigh (), 4096);
+	  rc = 4;
+	}
+      else
+	SASEnableSigSegv ();
+    }
+  if (rc)
+    {
+      free (mem_IDs);
+      mem_IDs = NULL;
+      free (sasStorePath);
+      sasStorePath = NULL;
+    }
 
   return rc;
 }
-- 
2.43.0


From cf4cfbce1a2aca14e185be8a55d7bbd64fef05ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 47/71] fix: close the descriptors of the proc files

---
 src/sphthread.c | 1 +
 src/sphtimer.c  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/sphthread.c b/src/sphthread.c
index e7a7aa5..1bb716b 100644
--- a/src/sphthread.c
+++ b/src/sphthread.c
@@ -43,6 +43,7 @@ sphdeGetCmdLine_internal (pid_t pid)
 	    cnt--;
 	  sph_cmdLine[cnt] = 0;
 	}
+      close (fd);
     }
   else
     {
diff --git a/src/sphtimer.c b/src/sphtimer.c
index 5c79c02..d59c733 100644
--- a/src/sphtimer.c
+++ b/src/sphtimer.c
@@ -56,6 +56,7 @@ get_cpu_freq_internal (void)
 
 	  cnt += hcnt;
 	}
+      close (fd);
       if (cnt > 0)
 	{
 	  char *tb_str = (char *) memmem (buf, cnt, "timebase", 7);
@@ -101,6 +102,7 @@ get_cpu_freq_internal (void)
       /* For x86/x86_64 cpuinfo repeats "cpu MHz" for each cpu listed.
          So we can assume that the 1st cpu will be in the 1st buffer. */
       cnt = read (fd, buf, sizeof (buf));
+      close (fd);
       if (cnt > 0)
 	{
 	  char *tb_str = (char *) memmem (buf, cnt, "MHz", 3);
-- 
2.43.0


From 1c5eb5c1f061cd318edb320e8b675ce83b6f490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 48/71] fix: shared memory that was just created and cannot be
 attached is removed again

---
 src/sasshm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sasshm.c b/src/sasshm.c
index 2c42248..b4fe708 100644
--- a/src/sasshm.c
+++ b/src/sasshm.c
@@ -95,6 +95,8 @@ SASAllocateShmID (key_t key_id, void *addr, long size)
       sas_printf ("SASAllocateShmID(%x, %p, %ld); shmat failed;%s\n",
 		  key_id, addr, size, strerror (errno));
 #endif
+      if (!exist)
+	SASRemoveShmID (shm_id);
       return (-1);
     }
 
@@ -145,6 +147,8 @@ SASAllocateShmID_clear (key_t key_id, void *addr, long size)
       sas_printf ("SASAllocateShmID(%x, %p, %ld); shmat failed;%s\n",
 		  key_id, addr, size, strerror (errno));
 #endif
+      if (!exist)
+	SASRemoveShmID (shm_id);
       return (-1);
     }
 
-- 
2.43.0


From d760a5f89094e8c994f526e27731cbebb9a7f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 49/71] fix: enumerations keep their own copy of the key they
 continue from

---
 src/sasindexenum.cpp       | 55 ++++++++++++++++++++++++++++++------
 src/sasstringbtreeenum.cpp | 57 ++++++++++++++++++++++++++++++++------
 2 files changed, 96 insertions(+), 16 deletions(-)

diff --git a/src/sasindexenum.cpp b/src/sasindexenum.cpp
index d86b9b1..31ff87c 100644
--- a/src/sasindexenum.cpp
+++ b/src/sasindexenum.cpp
@@ -32,11 +32,35 @@ typedef struct __IDXEnumeration
   __IDXnodePosRef ref;
   long curmod;
   bool hasmore;
+  /* key the next step continues from; never storage of the index */
+  SASIndexKey_t *seekkey;
+  SASIndexKey_t *keepkey;
+  size_t keepsize;
   SASIndexKey_t entryIndex;
 } __IDXEnumeration;
 
 typedef void *SASIndexEnum_t;
 
+/* Copy the current key, as the index may free it before the next step. */
+static bool
+IDXEnumKeepKey (__IDXEnumeration * indexenum)
+{
+  size_t size = SASIndexKeySize (indexenum->curkey);
+
+  if (size > indexenum->keepsize)
+    {
+      SASIndexKey_t *newkey =
+	(SASIndexKey_t *) realloc (indexenum->keepkey, size);
+      if (newkey == NULL)
+	return false;
+      indexenum->keepkey = newkey;
+      indexenum->keepsize = size;
+    }
+  SASIndexKeyCopy (indexenum->keepkey, indexenum->curkey);
+  indexenum->seekkey = indexenum->keepkey;
+  return true;
+}
+
 SASIndexEnum_t
 SASIndexEnumCreate (SASIndex_t tree)
 {
@@ -53,6 +77,9 @@ SASIndexEnumCreate (SASIndex_t tree)
 	  indexenum->ref.pos = 0;
 	  SASIndexKeyInitRef (&indexenum->entryIndex, NULL);
 	  indexenum->curkey = &indexenum->entryIndex;
+	  indexenum->seekkey = indexenum->curkey;
+	  indexenum->keepkey = NULL;
+	  indexenum->keepsize = 0;
 	}
       else
 	{
@@ -67,6 +94,8 @@ SASIndexEnumCreate (SASIndex_t tree)
 void
 SASIndexEnumDestroy (SASIndexEnum_t indexenum)
 {
+  if (indexenum != NULL)
+    free (((__IDXEnumeration *) indexenum)->keepkey);
   free (indexenum);
 }
 
@@ -95,7 +124,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
   if (maxkey != NULL)
     {
       indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+	(SASIndexKeyCompare (indexenum->seekkey, maxkey) < 0);
       if (indexenum->hasmore)
 	{
 	  SASIndexNode_t curnode = indexenum->ref.node;
@@ -120,7 +149,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		  else
 		    {
 		      found =
-			SASIndexNodeSearchGT (curnode, indexenum->curkey,
+			SASIndexNodeSearchGT (curnode, indexenum->seekkey,
 					      &indexenum->ref);
 		      if (found)
 			{
@@ -145,14 +174,14 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 	      SASIndexNode_t curnode = SASIndexGetRootNode (indexenum->tree);
 	      if (indexenum->ref.node == NULL)
 	      {
-		      found = SASIndexNodeSearchGE (curnode, indexenum->curkey,
+		      found = SASIndexNodeSearchGE (curnode, indexenum->seekkey,
 					      &indexenum->ref);
 #if __SASDebugPrint__ > 1
 		      sas_printf ("SASIndexEnumNext; !found curnode=%p SearchGE=%d\n",
 				  curnode, found);
 #endif
 	      } else {
-	          found = SASIndexNodeSearchGT (curnode, indexenum->curkey,
+	          found = SASIndexNodeSearchGT (curnode, indexenum->seekkey,
 				      &indexenum->ref);
 #if __SASDebugPrint__ > 1
 	          sas_printf ("SASIndexEnumNext; !found curnode=%p SearchGT=%d\n",
@@ -188,6 +217,11 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		  indexenum->tree);
 #endif
     }
+  if (found && !IDXEnumKeepKey (indexenum))
+    {
+      indexenum->hasmore = false;
+      result = NULL;
+    }
   SASUnlock (indexenum->tree);
 //      sas_printf("{%s,%s,%d}",indexenum->curkey, maxkey, indexenum->hasmore);
 
@@ -210,7 +244,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
   if (maxkey != NULL)
     {
       indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+	(SASIndexKeyCompare (indexenum->seekkey, maxkey) < 0);
       if (indexenum->hasmore)
 	{
 	  SASIndexNode_t curnode = indexenum->ref.node;
@@ -235,7 +269,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		  else
 		    {
 		      found =
-			SASIndexNodeSearchGT (curnode, indexenum->curkey,
+			SASIndexNodeSearchGT (curnode, indexenum->seekkey,
 					      &indexenum->ref);
 		      if (found)
 			{
@@ -260,14 +294,14 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 	      SASIndexNode_t curnode = SASIndexGetRootNode_nolock (indexenum->tree);
 	      if (indexenum->ref.node == NULL)
 	      {
-		      found = SASIndexNodeSearchGE (curnode, indexenum->curkey,
+		      found = SASIndexNodeSearchGE (curnode, indexenum->seekkey,
 					      &indexenum->ref);
 #if __SASDebugPrint__ > 1
 		      sas_printf ("SASIndexEnumNext_nolock; !found curnode=%p SearchGE=%d\n",
 				  curnode, found);
 #endif
 	      } else {
-	          found = SASIndexNodeSearchGT (curnode, indexenum->curkey,
+	          found = SASIndexNodeSearchGT (curnode, indexenum->seekkey,
 				      &indexenum->ref);
 #if __SASDebugPrint__ > 1
 	          sas_printf ("SASIndexEnumNext_nolock; !found curnode=%p SearchGT=%d\n",
@@ -304,6 +338,11 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 #endif
     }
 //      sas_printf("{%s,%s,%d}",indexenum->curkey, maxkey, indexenum->hasmore);
+  if (found && !IDXEnumKeepKey (indexenum))
+    {
+      indexenum->hasmore = false;
+      result = NULL;
+    }
 
   return result;
 }
diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index cb6ae59..f4da16a 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -32,11 +32,34 @@ typedef struct __SBEnumeration
   long curmod;
   long curcount;
   bool hasmore;
+  /* key the next step continues from; never storage of the tree */
+  char *seekkey;
+  char *keepkey;
+  size_t keepsize;
   char entryString[sizeof (void *)];
 } __SBEnumeration;
 
 typedef void *SASStringBTreeEnum_t;
 
+/* Copy the current key, as the tree may free it before the next step. */
+static bool
+SBEnumKeepKey (__SBEnumeration * stringenum)
+{
+  size_t size = strlen (stringenum->curkey) + 1;
+
+  if (size > stringenum->keepsize)
+    {
+      char *newkey = (char *) realloc (stringenum->keepkey, size);
+      if (newkey == NULL)
+	return false;
+      stringenum->keepkey = newkey;
+      stringenum->keepsize = size;
+    }
+  memcpy (stringenum->keepkey, stringenum->curkey, size);
+  stringenum->seekkey = stringenum->keepkey;
+  return true;
+}
+
 SASStringBTreeEnum_t
 SASStringBTreeEnumCreate (SASStringBTree_t tree)
 {
@@ -54,6 +77,9 @@ SASStringBTreeEnumCreate (SASStringBTree_t tree)
 	  stringenum->ref.pos = 0;
 	  stringenum->entryString[0] = '\0';
 	  stringenum->curkey = &stringenum->entryString[0];
+	  stringenum->seekkey = stringenum->curkey;
+	  stringenum->keepkey = NULL;
+	  stringenum->keepsize = 0;
 	}
       else
 	{
@@ -96,6 +122,9 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
 	      if (stringenum->entryString[0] != '\0')
 		stringenum->entryString[startkey_len - 2] -= 1;
 	      stringenum->curkey = &stringenum->entryString[0];
+	      stringenum->seekkey = stringenum->curkey;
+	      stringenum->keepkey = NULL;
+	      stringenum->keepsize = 0;
 	    }
 	  else
 	    {
@@ -117,6 +146,8 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
 void
 SASStringBTreeEnumDestroy (SASStringBTreeEnum_t stringenum)
 {
+  if (stringenum != NULL)
+    free (((__SBEnumeration *) stringenum)->keepkey);
   free (stringenum);
 }
 
@@ -158,7 +189,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 #endif
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      stringenum->hasmore = (strcmp (stringenum->seekkey, maxkey) < 0);
       if (stringenum->hasmore)
 	{
 	  SASStringBTreeNode_t curnode = stringenum->ref.node;
@@ -185,7 +216,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		    {
 		      found =
 			SASStringBTreeNodeSearchGT (curnode,
-						    stringenum->curkey,
+						    stringenum->seekkey,
 						    &stringenum->ref);
 		      if (found)
 			{
@@ -218,7 +249,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
               if (stringenum->ref.node == NULL)
               {
 	          found =
-		  SASStringBTreeNodeSearchGE (curnode, stringenum->curkey,
+		  SASStringBTreeNodeSearchGE (curnode, stringenum->seekkey,
 					    &stringenum->ref);
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext; !found curnode=%p SearchGE=%d\n",
@@ -226,7 +257,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 #endif
               } else {
 	          found =
-		  SASStringBTreeNodeSearchGT (curnode, stringenum->curkey,
+		  SASStringBTreeNodeSearchGT (curnode, stringenum->seekkey,
 					    &stringenum->ref);
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext; !found curnode=%p SearchGT=%d\n",
@@ -264,6 +295,11 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		  stringenum->tree);
 #endif
     }
+  if (found && !SBEnumKeepKey (stringenum))
+    {
+      stringenum->hasmore = false;
+      result = NULL;
+    }
   SASUnlock (stringenum->tree);
 //      sas_printf("{%s,%s,%d}",stringenum->curkey, maxkey, stringenum->hasmore);
 
@@ -286,7 +322,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 #endif
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      stringenum->hasmore = (strcmp (stringenum->seekkey, maxkey) < 0);
       if (stringenum->hasmore)
 	{
 	  SASStringBTreeNode_t curnode = stringenum->ref.node;
@@ -313,7 +349,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		    {
 		      found =
 			SASStringBTreeNodeSearchGT (curnode,
-						    stringenum->curkey,
+						    stringenum->seekkey,
 						    &stringenum->ref);
 		      if (found)
 			{
@@ -346,7 +382,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
               if (stringenum->ref.node == NULL)
               {
 	          found =
-		  SASStringBTreeNodeSearchGE (curnode, stringenum->curkey,
+		  SASStringBTreeNodeSearchGE (curnode, stringenum->seekkey,
 					    &stringenum->ref);
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext_nolock; !found curnode=%p SearchGE=%d\n",
@@ -354,7 +390,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 #endif
               } else {
 	          found =
-		  SASStringBTreeNodeSearchGT (curnode, stringenum->curkey,
+		  SASStringBTreeNodeSearchGT (curnode, stringenum->seekkey,
 					    &stringenum->ref);
 #if __SASDebugPrint__ > 1
     sas_printf ("SASStringBTreeEnumNext_nolock; !found curnode=%p SearchGT=%d\n",
@@ -393,6 +429,11 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 #endif
     }
 //      sas_printf("{%s,%s,%d}",stringenum->curkey, maxkey, stringenum->hasmore);
+  if (found && !SBEnumKeepKey (stringenum))
+    {
+      stringenum->hasmore = false;
+      result = NULL;
+    }
 
   return result;
 }
-- 
2.43.0


From aa497ae1cba80697c59d3ece87219ebd4368bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:01 +0000
Subject: [PATCH 50/71] fix: a fault in the region that cannot be repaired goes
 on to the old handler

---
 src/sassim.cpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 01c8704..c9a912a 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -973,7 +973,7 @@ SASAttachSegByAddr (void *segAddr, unsigned long size)
   return rc;
 }
 
-void
+int
 SASAttachAllocatedAddr (void *segAddr)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
@@ -984,12 +984,17 @@ SASAttachAllocatedAddr (void *segAddr)
   unsigned long blockSize;
   unsigned long blockMask = ~(SegmentSize - 1);
   unsigned long keys = 0;
+  int rc = 1;
+  int tries = 10;
 
   segBase = (void *) ((unsigned long) segAddr & blockMask);
 #ifdef __SASDebugPrint__
   sas_printf ("SASAttachAllocatedAddr @ <%p, %p>\n", segAddr, segBase);
 #endif
 
+  /* The table is read without the region semaphore, which this process may
+     hold already.  Another process may be changing it, so do not give up on
+     the first miss.  */
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1004,14 +1009,23 @@ SASAttachAllocatedAddr (void *segAddr)
 	      sas_printf ("SASAttachAllocatedAddr segment <%p, %lx>\n",
 			  blockAddr, blockSize);
 #endif
-	      if (SASAttachSegByAddr (segBase, blockSize))
+	      rc = SASAttachSegByAddr (segBase, blockSize);
+	      if (rc)
 		sas_printf ("SASAttachAllocatedAddr:%s for %p:\n",
 			    "SASAttachSegByAddr failed", blockAddr);
 	      break;
 	    }
 	}
+      else if (--tries)
+	{
+	  usleep (1000);
+	  u = anchor->anchors.allocated;
+	  keys = 0;
+	}
     }
-  while (n);
+  while (n || tries);
+
+  return rc;
 }
 
 void
@@ -1328,9 +1342,11 @@ SASSigSegvHandler(int signal, siginfo_t * info, void *context)
 		unsigned long reg_low = (unsigned long) memLow;
 		unsigned long reg_high = (unsigned long) memHigh;
 		unsigned long segv_addr = (unsigned long) info->si_addr;
-		if ((segv_addr >= reg_low) && (segv_addr < reg_high))
+		if ((segv_addr >= reg_low) && (segv_addr < reg_high)
+		    && !SASAttachAllocatedAddr(info->si_addr))
 		{
-			SASAttachAllocatedAddr(info->si_addr);
+			/* The segment is attached now, so repeat the access. */
+			return;
 		} else {
 			if (oldSigSegV.sa_handler != SIG_DFL)
 			{
@@ -1776,8 +1792,11 @@ SASThreadSigSegvHandler(int signal, siginfo_t * info, void *context)
 		unsigned long reg_low = (unsigned long) memLow;
 		unsigned long reg_high = (unsigned long) memHigh;
 		unsigned long segv_addr = (unsigned long) info->si_addr;
-		if ((segv_addr >= reg_low) && (segv_addr < reg_high)) {
-			SASAttachAllocatedAddr(info->si_addr);
+		if ((segv_addr >= reg_low) && (segv_addr < reg_high)
+		    && !SASAttachAllocatedAddr(info->si_addr))
+		{
+			/* The segment is attached now, so repeat the access. */
+			return;
 		} else {
 			if (oldThreadSigSegV.sa_handler != SIG_DFL)
 			{
-- 
2.43.0


From a3d47b9f9a03aba560d2f639446680ebcf28bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 51/71] fix: the fault handler of a second thread does not call
 itself

---
 src/sassim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index c9a912a..a388b6c 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1834,6 +1834,11 @@ SASThreadEnableSigSegv ()
   sa.sa_sigaction = &SASThreadSigSegvHandler;
   sigemptyset (&sa.sa_mask);
   sigaction (SIGSEGV, &sa, &oldThreadSigSegV);
+  /* Another thread has set up this handler already, and the handler before
+     that one is known to that thread only.  Go on to the handler of the
+     region, as this one must never go on to itself.  */
+  if (oldThreadSigSegV.sa_sigaction == &SASThreadSigSegvHandler)
+    oldThreadSigSegV.sa_sigaction = &SASSigSegvHandler;
 #endif
 }
 
-- 
2.43.0


From cbabfa0363e8ec30be78b3ed3467294251c338c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 52/71] fix: count and modCount of a string B-tree or index
 change only with its contents

A refused insertion, a replacement and a removal of a missing key counted
as changes.
---
 src/sasindex.cpp       | 154 ++++++++++++++++++++---------------------
 src/sasstringbtree.cpp | 146 +++++++++++++++++++-------------------
 2 files changed, 144 insertions(+), 156 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 8df4140..6f83b70 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1386,6 +1386,7 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			{
 			    btree->root = node;
 				btree->common->modCount++;
+				btree->common->count++;
 			    if ( SASIndexKeyCompare(key, btree->common->min_key) < 0 ) 
 			    	SASIndexUpdateMin(heap, key);
 			    if ( SASIndexKeyCompare(key, btree->common->max_key) > 0 ) 
@@ -1398,9 +1399,9 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    SASIndexUpdateMin(heap, key);
 		    SASIndexUpdateMax(heap, key);
 			btree->common->modCount++;
+			btree->common->count++;
 			result = true;
 		};
-		btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; /* False indicates duplicate key */
@@ -1424,6 +1425,7 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			{
 			    btree->root = node;
 				btree->common->modCount++;
+				btree->common->count++;
 			    if ( SASIndexKeyCompare(key, btree->common->min_key) < 0 )
 			    	SASIndexUpdateMin(heap, key);
 			    if ( SASIndexKeyCompare(key, btree->common->max_key) > 0 )
@@ -1436,9 +1438,9 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    SASIndexUpdateMin(heap, key);
 		    SASIndexUpdateMax(heap, key);
 			btree->common->modCount++;
+			btree->common->count++;
 			result = true;
 		};
-		btree->common->count++;
     }
 	return result; /* False indicates duplicate key */
 }
@@ -1454,8 +1456,6 @@ SASIndexReplace (SASIndex_t  heap, SASIndexKey_t *key, void *value)
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__WRITE);
-		btree->common->modCount++;
-		
 		if (btree->root != NULL)
 		{
 			int found;
@@ -1463,10 +1463,10 @@ SASIndexReplace (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    //found = getNode(key, &ref);
 		    if (found)
 		    {
+				btree->common->modCount++;
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; // return prev value if already exist
@@ -1482,8 +1482,6 @@ SASIndexReplace_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
     if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
-		btree->common->modCount++;
-
 		if (btree->root != NULL)
 		{
 			int found;
@@ -1491,10 +1489,10 @@ SASIndexReplace_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    //found = getNode(key, &ref);
 		    if (found)
 		    {
+				btree->common->modCount++;
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
     }
 	return result; // return prev value if already exist
 }
@@ -1512,8 +1510,6 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
                                     SAS_RUNTIME_INDEX))
     {
     	SASLock(heap, SasUserLock__WRITE);
-		btree->common->modCount++;
-		
 		if (btree->root != NULL)
 		{
 			int found;
@@ -1521,43 +1517,43 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 		    //found = getNode(key, &ref);
 		    if (found)
 		    {
+				btree->common->modCount++;
 				result = SASIndexNodeGetValIndexed(ref.node, ref.pos);
-		    }
-			  
-		    newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
-		    if ( newRoot != btree->root )
-		    {   //Delete the old root which is empty
-				SASIndexNearDealloc(btree->root);
-				btree->root = newRoot;
-		    }
-		    if ( btree->root != NULL )
-		    {
-				btree->common->count--;
-				if (btree->common->count > 0)
+				newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
+				if ( newRoot != btree->root )
+				{   //Delete the old root which is empty
+					SASIndexNearDealloc(btree->root);
+					btree->root = newRoot;
+				}
+				if ( btree->root != NULL )
 				{
-				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
-				    {
-				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
-				        {
-				            node = node->branch[0];
-				        }
-				        SASIndexUpdateMin(heap, node->keys[1]);
-				    }
-				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
-				    {
-				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
-				        {
-				            node = node->branch[node->count];
-				        }
-				        SASIndexUpdateMax(heap ,node->keys[(node->count)]);
-				    }
+					btree->common->count--;
+					if (btree->common->count > 0)
+					{
+						if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
+						{
+							node = (SASIndexNodeHeader *) btree->root;
+							if (node->branch[0] != NULL)
+							{
+								node = node->branch[0];
+							}
+							SASIndexUpdateMin(heap, node->keys[1]);
+						}
+						if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
+						{
+							node = (SASIndexNodeHeader *) btree->root;
+							if(node->branch[node->count] != NULL)
+							{
+								node = node->branch[node->count];
+							}
+							SASIndexUpdateMax(heap ,node->keys[(node->count)]);
+						}
+					}
+				} else {
+					btree->common->count = 0;
+					SASIndexUpdateMax(heap, NULL);
+					SASIndexUpdateMin(heap, NULL);
 				}
-		    } else {
-				btree->common->count = 0;
-				SASIndexUpdateMax(heap, NULL);
-				SASIndexUpdateMin(heap, NULL);
 		    }
 		} else {
 		    btree->common->count = 0;
@@ -1579,8 +1575,6 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
     if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
                                     SAS_RUNTIME_INDEX))
     {
-		btree->common->modCount++;
-
 		if (btree->root != NULL)
 		{
 			int found;
@@ -1588,43 +1582,43 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 		    //found = getNode(key, &ref);
 		    if (found)
 		    {
+				btree->common->modCount++;
 				result = SASIndexNodeGetValIndexed(ref.node, ref.pos);
-		    }
-
-		    newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
-		    if ( newRoot != btree->root )
-		    {   //Delete the old root which is empty
-				SASIndexNearDeallocNoLock(btree->root);
-				btree->root = newRoot;
-		    }
-		    if ( btree->root != NULL )
-		    {
-				btree->common->count--;
-				if (btree->common->count > 0)
+				newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
+				if ( newRoot != btree->root )
+				{   //Delete the old root which is empty
+					SASIndexNearDeallocNoLock(btree->root);
+					btree->root = newRoot;
+				}
+				if ( btree->root != NULL )
 				{
-				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
-				    {
-				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
-				        {
-				            node = node->branch[0];
-				        }
-				        SASIndexUpdateMin(heap, node->keys[1]);
-				    }
-				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
-				    {
-				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
-				        {
-				            node = node->branch[node->count];
-				        }
-				        SASIndexUpdateMax(heap ,node->keys[(node->count)]);
-				    }
+					btree->common->count--;
+					if (btree->common->count > 0)
+					{
+						if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
+						{
+							node = (SASIndexNodeHeader *) btree->root;
+							if (node->branch[0] != NULL)
+							{
+								node = node->branch[0];
+							}
+							SASIndexUpdateMin(heap, node->keys[1]);
+						}
+						if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
+						{
+							node = (SASIndexNodeHeader *) btree->root;
+							if(node->branch[node->count] != NULL)
+							{
+								node = node->branch[node->count];
+							}
+							SASIndexUpdateMax(heap ,node->keys[(node->count)]);
+						}
+					}
+				} else {
+					btree->common->count = 0;
+					SASIndexUpdateMax(heap, NULL);
+					SASIndexUpdateMin(heap, NULL);
 				}
-		    } else {
-				btree->common->count = 0;
-				SASIndexUpdateMax(heap, NULL);
-				SASIndexUpdateMin(heap, NULL);
 		    }
 		} else {
 		    btree->common->count = 0;
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index edcf9f8..846806f 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1519,6 +1519,7 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 	    {
 	      btree->root = node;
 	      btree->common->modCount++;
+	      btree->common->count++;
 	      if (strcmp (key, btree->common->min_key) < 0)
 		SASStringBTreeUpdateMin (heap, key);
 	      if (strcmp (key, btree->common->max_key) > 0)
@@ -1533,9 +1534,9 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 	  SASStringBTreeUpdateMin (heap, key);
 	  SASStringBTreeUpdateMax (heap, key);
 	  btree->common->modCount++;
+	  btree->common->count++;
 	  result = true;
 	};
-      btree->common->count++;
       SASUnlock (heap);
     }
   return result;		/* False indicates duplicate key */
@@ -1558,6 +1559,7 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
             {
               btree->root = node;
               btree->common->modCount++;
+              btree->common->count++;
               if (strcmp (key, btree->common->min_key) < 0)
                 SASStringBTreeUpdateMin (heap, key);
               if (strcmp (key, btree->common->max_key) > 0)
@@ -1572,9 +1574,9 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
           SASStringBTreeUpdateMin (heap, key);
           SASStringBTreeUpdateMax (heap, key);
           btree->common->modCount++;
+          btree->common->count++;
           result = true;
         };
-      btree->common->count++;
     }
   return result;                /* False indicates duplicate key */
 }
@@ -1590,8 +1592,6 @@ SASStringBTreeReplace (SASStringBTree_t heap, const char *key, void *value)
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
-      btree->common->modCount++;
-
       if (btree->root != NULL)
 	{
 	  int found;
@@ -1599,11 +1599,11 @@ SASStringBTreeReplace (SASStringBTree_t heap, const char *key, void *value)
 	  //found = getNode(key, &ref);
 	  if (found)
 	    {
+	      btree->common->modCount++;
 	      result =
 		SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
 	    }
 	}
-      btree->common->count++;
       SASUnlock (heap);
     }
   return result;		// return prev value if already exist
@@ -1619,8 +1619,6 @@ SASStringBTreeReplace_nolock (SASStringBTree_t heap, const char *key, void *valu
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
-      btree->common->modCount++;
-
       if (btree->root != NULL)
         {
           int found;
@@ -1628,11 +1626,11 @@ SASStringBTreeReplace_nolock (SASStringBTree_t heap, const char *key, void *valu
 	  //found = getNode(key, &ref);
           if (found)
             {
+              btree->common->modCount++;
               result =
                 SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
             }
         }
-      btree->common->count++;
     }
   return result;                // return prev value if already exist
 }
@@ -1650,8 +1648,6 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
-      btree->common->modCount++;
-
       if (btree->root != NULL)
 	{
 	  int found;
@@ -1659,41 +1655,41 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
 	  //found = getNode(key, &ref);
 	  if (found)
 	    {
+	      btree->common->modCount++;
 	      result = SASStringBTreeNodeGetValIndexed (ref.node, ref.pos);
-	    }
-
-	  newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
-	  if (newRoot != btree->root)
-	    {			//Delete the old root which is empty
-	      SASStringBTreeNearDealloc (btree->root);
-	      btree->root = newRoot;
-	    }
-	  if (btree->root != NULL)
-	    {
-	      btree->common->count--;
-              if (btree->common->count > 0)
-                {
-                  if(strcmp(key, btree->common->min_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
-                          node = node->branch[0];
-                       SASStringBTreeUpdateMin(heap, node->keys[1]);
-                    }
-                  if(strcmp(key, btree->common->max_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
-                          node = node->branch[node->count];
-                       SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
-                    }
-                }
-	    }
-	  else
-	    {
-	      btree->common->count = 0;
-	      SASStringBTreeUpdateMax (heap, NULL);
-	      SASStringBTreeUpdateMin (heap, NULL);
+	      newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
+	      if (newRoot != btree->root)
+		{                   //Delete the old root which is empty
+		  SASStringBTreeNearDealloc (btree->root);
+		  btree->root = newRoot;
+		}
+	      if (btree->root != NULL)
+		{
+		  btree->common->count--;
+		  if (btree->common->count > 0)
+		    {
+		      if(strcmp(key, btree->common->min_key) == 0)
+			{
+			   node = (SASStringBTreeNodeHeader *) btree->root;
+			   if (node->branch[0] != NULL)
+			      node = node->branch[0];
+			   SASStringBTreeUpdateMin(heap, node->keys[1]);
+			}
+		      if(strcmp(key, btree->common->max_key) == 0)
+			{
+			   node = (SASStringBTreeNodeHeader *) btree->root;
+			   if (node->branch[node->count] != NULL)
+			      node = node->branch[node->count];
+			   SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
+			}
+		    }
+		}
+	      else
+		{
+		  btree->common->count = 0;
+		  SASStringBTreeUpdateMax (heap, NULL);
+		  SASStringBTreeUpdateMin (heap, NULL);
+		}
 	    }
 	}
       else
@@ -1717,8 +1713,6 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
-      btree->common->modCount++;
-
       if (btree->root != NULL)
         {
           int found;
@@ -1726,41 +1720,41 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
 	  //found = getNode(key, &ref);
           if (found)
             {
+              btree->common->modCount++;
               result = SASStringBTreeNodeGetValIndexed (ref.node, ref.pos);
-            }
-
-          newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
-          if (newRoot != btree->root)
-	    {			//Delete the old root which is empty
-              SASStringBTreeNearDeallocNoLock (btree->root);
-              btree->root = newRoot;
-            }
-          if (btree->root != NULL)
-            {
-              btree->common->count--;
-              if (btree->common->count > 0)
+              newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
+              if (newRoot != btree->root)
+                {                   //Delete the old root which is empty
+                  SASStringBTreeNearDeallocNoLock (btree->root);
+                  btree->root = newRoot;
+                }
+              if (btree->root != NULL)
                 {
-                  if(strcmp(key, btree->common->min_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
-                          node = node->branch[0];
-                       SASStringBTreeUpdateMin(heap, node->keys[1]);
-                    }
-                  if(strcmp(key, btree->common->max_key) == 0)
+                  btree->common->count--;
+                  if (btree->common->count > 0)
                     {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
-                          node = node->branch[node->count];
-                       SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
+                      if(strcmp(key, btree->common->min_key) == 0)
+                        {
+                           node = (SASStringBTreeNodeHeader *) btree->root;
+                           if (node->branch[0] != NULL)
+                              node = node->branch[0];
+                           SASStringBTreeUpdateMin(heap, node->keys[1]);
+                        }
+                      if(strcmp(key, btree->common->max_key) == 0)
+                        {
+                           node = (SASStringBTreeNodeHeader *) btree->root;
+                           if (node->branch[node->count] != NULL)
+                              node = node->branch[node->count];
+                           SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
+                        }
                     }
                 }
-            }
-          else
-            {
-              btree->common->count = 0;
-              SASStringBTreeUpdateMax (heap, NULL);
-              SASStringBTreeUpdateMin (heap, NULL);
+              else
+                {
+                  btree->common->count = 0;
+                  SASStringBTreeUpdateMax (heap, NULL);
+                  SASStringBTreeUpdateMin (heap, NULL);
+                }
             }
         }
       else
-- 
2.43.0


From 2a3ad3ae6cc97082226153c0a16443ef232475b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 53/71] fix: smallest and largest key after a removal come from
 the outermost leaf

The search stopped at the child of the root, so in a tree of three or more
levels the recorded smallest and largest keys were wrong.
---
 src/sasindex.cpp       | 8 ++++----
 src/sasstringbtree.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 6f83b70..632cf64 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1533,7 +1533,7 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 						if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
 						{
 							node = (SASIndexNodeHeader *) btree->root;
-							if (node->branch[0] != NULL)
+							while (node->branch[0] != NULL)
 							{
 								node = node->branch[0];
 							}
@@ -1542,7 +1542,7 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 						if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
 						{
 							node = (SASIndexNodeHeader *) btree->root;
-							if(node->branch[node->count] != NULL)
+							while (node->branch[node->count] != NULL)
 							{
 								node = node->branch[node->count];
 							}
@@ -1598,7 +1598,7 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 						if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
 						{
 							node = (SASIndexNodeHeader *) btree->root;
-							if (node->branch[0] != NULL)
+							while (node->branch[0] != NULL)
 							{
 								node = node->branch[0];
 							}
@@ -1607,7 +1607,7 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 						if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
 						{
 							node = (SASIndexNodeHeader *) btree->root;
-							if(node->branch[node->count] != NULL)
+							while (node->branch[node->count] != NULL)
 							{
 								node = node->branch[node->count];
 							}
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 846806f..51835fb 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1671,14 +1671,14 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
 		      if(strcmp(key, btree->common->min_key) == 0)
 			{
 			   node = (SASStringBTreeNodeHeader *) btree->root;
-			   if (node->branch[0] != NULL)
+			   while (node->branch[0] != NULL)
 			      node = node->branch[0];
 			   SASStringBTreeUpdateMin(heap, node->keys[1]);
 			}
 		      if(strcmp(key, btree->common->max_key) == 0)
 			{
 			   node = (SASStringBTreeNodeHeader *) btree->root;
-			   if (node->branch[node->count] != NULL)
+			   while (node->branch[node->count] != NULL)
 			      node = node->branch[node->count];
 			   SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
 			}
@@ -1736,14 +1736,14 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
                       if(strcmp(key, btree->common->min_key) == 0)
                         {
                            node = (SASStringBTreeNodeHeader *) btree->root;
-                           if (node->branch[0] != NULL)
+                           while (node->branch[0] != NULL)
                               node = node->branch[0];
                            SASStringBTreeUpdateMin(heap, node->keys[1]);
                         }
                       if(strcmp(key, btree->common->max_key) == 0)
                         {
                            node = (SASStringBTreeNodeHeader *) btree->root;
-                           if (node->branch[node->count] != NULL)
+                           while (node->branch[node->count] != NULL)
                               node = node->branch[node->count];
                            SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
                         }
-- 
2.43.0


From c05361a00fc0b18f3b675d22bdcac2c6e4753a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 54/71] fix: a name is removed from the context before its
 stored copy is freed

With the stored copy itself as the key (as SPHContextFindByAddr returns it)
the name tree was searched for freed memory and kept the binding.
---
 src/sphcontext.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 215e75c..dce85f8 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -405,6 +405,9 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 			{
 				int		strsize = strlen(strbuff) + 1;
 				
+				/* key may be this stored string, so it is freed last */
+				SASIndexRemove (header->objID, &keyID);
+				SASStringBTreeRemove (header->name, key);
 				rc = SPHContextFreeNoLock (contxt, strbuff, strsize);
 				if (rc)
 				{
@@ -415,8 +418,6 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 #endif
 				} else {
 					result = 0;
-					SASIndexRemove (header->objID, &keyID);
-					SASStringBTreeRemove (header->name, key);
 				}
 			}
 		} else {
-- 
2.43.0


From 7ce4758cffcc77c5871b5f5cf02fd47cd48c029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 55/71] fix: SPHContextRemoveByAddr frees as many bytes as
 SPHContextAddName allocated

---
 src/sphcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index dce85f8..3a26640 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -484,7 +484,7 @@ SPHContextRemoveByAddrNoLock (SPHContext_t contxt, const void *value)
 		if (strbuff)
 		{
 			void	*val2;			
-			int		strsize = strlen(strbuff);
+			int		strsize = strlen(strbuff) + 1;
 	
 			val2 = (char*)SASStringBTreeGet(header->name, strbuff);
 			if (value == val2)
-- 
2.43.0


From e43bf7a66c866bb9a1b23b9ea59f92f6be5b5699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 56/71] fix: a rename that is refused leaves the old name bound

SPHContextRename removed the old name first, so that nothing was left when
the new name was taken or there was no room for it.
---
 src/sphcontext.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 3a26640..fe312b5 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -451,8 +451,42 @@ SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, v
     	oldval = SPHContextFindByNameNoLock(contxt, oldkey);
     	if (oldval && (oldval == value))
     	{
-		    SPHContextRemoveByNameNoLock(contxt,oldkey);
-    	    result = SPHContextAddNameNoLock(contxt, newkey, value);
+			SPHContextHeader	*header = (SPHContextHeader*) headerBlock;
+
+			if (strcmp(oldkey, newkey) == 0)
+			{
+				result = 1;
+			}
+			else
+			{
+				block_size_t	new_size = strlen(newkey) + 1;
+				char			*newbuff;
+
+				/* the old name stays in place until the new one is in */
+				newbuff = (char*) SPHContextAllocNoLock(contxt, new_size);
+				if (newbuff)
+				{
+					strcpy(newbuff, newkey);
+					result = SASStringBTreePut(header->name, newkey, value);
+					if (result)
+					{
+						SASIndexKey_t	keyID;
+						char			*oldbuff;
+
+						SASIndexKeyInitRef (&keyID, value);
+						oldbuff = (char*) SASIndexReplace (header->objID,
+						                                   &keyID, newbuff);
+						SASStringBTreeRemove (header->name, oldkey);
+						if (oldbuff)
+							SPHContextFreeNoLock(contxt, oldbuff,
+							                     strlen(oldbuff) + 1);
+					}
+					else
+					{
+						SPHContextFreeNoLock(contxt, newbuff, new_size);
+					}
+				}
+			}
     	}
 		SASUnlock(contxt);
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 76361483de46eaccce21c44bab9e9c90a252c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:29 +0000
Subject: [PATCH 57/71] fix: a context without room for its trees is not
 created

SPHContextCreate returned a context whose name tree or index was NULL, and
the project context functions went on with a root context of NULL.
---
 src/sphcontext.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index fe312b5..4669f54 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -63,6 +63,9 @@ typedef struct SPHContextHeader {
 
 static SPHContext_t currentContext = NULL;
 
+int
+SPHContextDestroyNoLock (SPHContext_t heap);
+
 SPHContext_t 
 SPHContextInit (void* heap_seg,  sas_type_t sasType,
 		block_size_t heap_size)
@@ -109,6 +112,11 @@ SPHContextCreate (block_size_t heap_size)
 			else
 	    			sas_printf("SPHContextAlloc() Index create failed\n");
 #endif
+			if ((header->name == NULL) || (header->objID == NULL))
+			{
+				SPHContextDestroyNoLock (result);
+				result = NULL;
+			}
 		}
 		return result;
     } else 
@@ -763,6 +771,11 @@ SPHSetupProjectContext(const char *project_name)
 	if (!rootcntx)
 	{
 		rootcntx = SPHContextCreate(64 * 1024);
+		if (!rootcntx)
+		{
+			SASUnlock(rootlock);
+			return NULL;
+		}
 		setSASFinder(rootcntx);
 	}
 
@@ -810,6 +823,11 @@ SPHSetupAltProjectContext(const char *project_name)
 	if (!rootcntx)
 	{
 		rootcntx = SPHContextCreate(64 * 1024);
+		if (!rootcntx)
+		{
+			SASUnlock(rootlock);
+			return NULL;
+		}
 		setSASFinder(rootcntx);
 	}
 
-- 
2.43.0


From 5b224ecfdd321a99214b718b39e98ca0f4035023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:22 +0000
Subject: [PATCH 58/71] fix: a tree or heap created over recycled storage
 starts out empty

---
 src/sascompoundheap.cpp | 3 +++
 src/sasindex.cpp        | 3 +++
 src/sasstringbtree.cpp  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 0558ede..45c40af 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -152,6 +152,7 @@ SASCompoundHeapExpandInit (void *heap_seg,
   freeNode_init (heapBlock->headerFreeSpace, remaining);
 
   heapBlock->expandList = NULL;
+  heapBlock->expandSpace = NULL;
   heapBlock->loadFactor = DEFAULT_LOAD_FACTOR;
 
   return (SASCompoundHeap_t) heapBlock;
@@ -185,6 +186,8 @@ SASCompoundHeapInit (void *heap_seg,
   freeNode_init (heapBlock->headerFreeSpace, remaining);
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
   heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
+  heapBlock->expandList = NULL;
+  heapBlock->expandSpace = NULL;
   heapBlock->loadFactor = 100;
 
   if (expanding)
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 632cf64..936a21d 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -177,6 +177,8 @@ SASIndexInit (void* heap_seg,
     freeNode_init(heapBlock->headerFreeSpace, remaining);
     heapBlock->blockHeader.baseBlock = (SASBlockHeader*)heapBlock;
     heapBlock->blockHeader.nextBlock = (SASBlockHeader*)heapBlock;
+    heapBlock->root = NULL;
+    heapBlock->expandList = NULL;
     
     if (expanding)
     {
@@ -205,6 +207,7 @@ SASIndexInit (void* heap_seg,
 		heapBlock->common = commonAlloc;
 		commonAlloc->version = 0;
 		commonAlloc->modCount = 1;
+		commonAlloc->count = 0;
 		commonAlloc->max_key = NULL;
 		commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 51835fb..0d3edb3 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -178,6 +178,8 @@ SASStringBTreeInit (void *heap_seg,
   freeNode_init (heapBlock->headerFreeSpace, remaining);
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
   heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
+  heapBlock->root = NULL;
+  heapBlock->expandList = NULL;
 
   if (expanding)
     {
@@ -213,6 +215,7 @@ SASStringBTreeInit (void *heap_seg,
       heapBlock->common = commonAlloc;
       commonAlloc->version = 0;
       commonAlloc->modCount = 1;
+      commonAlloc->count = 0;
       commonAlloc->max_key = NULL;
       commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From da5d235768f96e4cdbcec13e87b1e14c0070bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 59/71] fix: a page too small for a queue goes back to the
 compound heap

---
 src/sascompoundheap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 45c40af..901b41a 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1279,7 +1279,10 @@ SPHCompoundPCQAllocInternal (SASCompoundHeapHeader * headerBlock)
 
       SPHSinglePCQueueInitWithStride (simpleBlock, simpleSize,
 					     stride, SPHSPCQUEUE_CIRCULAR);
-	  simpleBlock->baseBlock = (SASBlockHeader *) headerBlock;
+	  if (newHeap != NULL)
+	    simpleBlock->baseBlock = (SASBlockHeader *) headerBlock;
+	  else
+	    SASCompoundHeapFreeInternal (headerBlock, (SASSimpleHeap_t) mem);
 	}
     }
   return newHeap;
-- 
2.43.0


From 71bff6588a989bf8e7170f6154a789618c5fdec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 60/71] fix: sas_atomic_swap stores the value it is given on
 x86 and is not optimised away

---
 src/sasatom_i386.h   | 4 ++--
 src/sasatom_x86_64.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sasatom_i386.h b/src/sasatom_i386.h
index 85e20f4..8a41c95 100644
--- a/src/sasatom_i386.h
+++ b/src/sasatom_i386.h
@@ -71,9 +71,9 @@ __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 __arch_atomic_swap (long int *p, long int replace)
 {
-  long int temp;
+  long int temp = replace;
 
-  __asm__ (
+  __asm__ __volatile__ (
     "  lock;"
     "  xchgl %0,(%1);"
    : "+r" (temp)
diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index 9c0d233..eaf83a8 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -95,9 +95,9 @@ __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 __arch_atomic_swap (long int *p, long int replace)
 {
-  long int temp;
+  long int temp = replace;
 
-  __asm__ (
+  __asm__ __volatile__ (
     " lock;"
     " xchg %0,(%1);"
    : "+r" (temp)
-- 
2.43.0


From 1c25ed07deafb2a7058c7c5849cc8d5ea67f969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 61/71] fix: sas_atomic_inc and sas_atomic_dec update the whole
 long on x86-64

---
 src/sasatom_x86_64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index eaf83a8..e1c75df 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -113,7 +113,7 @@ __arch_atomic_inc (long int *p)
 {
   __asm__ __volatile__ (
     "  lock;"
-    "  incl (%0);"
+    "  incq (%0);"
    :
    : "p" (p)
    : "memory"
@@ -125,7 +125,7 @@ __arch_atomic_dec (long int *p)
 {
   __asm__ (
     "  lock;"
-    "  decl (%0);"
+    "  decq (%0);"
    :
    : "p" (p)
    : "memory"
-- 
2.43.0


From 65889bc48a5a87d0b4756c992e4f5a8a2366fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 62/71] fix: sas_spin_lock expects a free lock again after
 every failed attempt

---
 src/sasatom_generic.h   | 3 ++-
 src/sasatom_loongarch.h | 3 ++-
 src/sasatom_powerpc.h   | 3 ++-
 src/sasatom_riscv.h     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sasatom_generic.h b/src/sasatom_generic.h
index d1b3cb8..37ebc11 100644
--- a/src/sasatom_generic.h
+++ b/src/sasatom_generic.h
@@ -129,11 +129,12 @@ __arch_atomic_dec (long int *pointer)
 static inline void
 __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
 {
-  int oldval  = 0;
+  int oldval;
   int newval  = 1;
   int success = 0;
 
   do {
+     oldval = 0;
      success = __atomic_compare_exchange_n (lock, &oldval, newval, 1,
     		 __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
   } while (!success);
diff --git a/src/sasatom_loongarch.h b/src/sasatom_loongarch.h
index b9ba7e0..e0e5fe8 100644
--- a/src/sasatom_loongarch.h
+++ b/src/sasatom_loongarch.h
@@ -129,11 +129,12 @@ __arch_atomic_dec (long int *pointer)
 static inline void
 __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
 {
-  int oldval  = 0;
+  int oldval;
   int newval  = 1;
   int success = 0;
 
   do {
+     oldval = 0;
      success = __atomic_compare_exchange_n (lock, &oldval, newval, 1,
     		 __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
   } while (!success);
diff --git a/src/sasatom_powerpc.h b/src/sasatom_powerpc.h
index 8e73083..43f8ab5 100644
--- a/src/sasatom_powerpc.h
+++ b/src/sasatom_powerpc.h
@@ -235,11 +235,12 @@ __arch_atomic_dec(long int *p)
 static inline void
 __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
 {
-  int oldval  = 0;
+  int oldval;
   int newval  = 1;
   int success = 0;
 
   do {
+     oldval = 0;
      success = __atomic_compare_exchange_n (lock, &oldval, newval, 1,
     		 __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
   } while (!success);
diff --git a/src/sasatom_riscv.h b/src/sasatom_riscv.h
index 3d9a5b3..0a47fec 100644
--- a/src/sasatom_riscv.h
+++ b/src/sasatom_riscv.h
@@ -129,11 +129,12 @@ __arch_atomic_dec (long int *pointer)
 static inline void
 __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
 {
-  int oldval  = 0;
+  int oldval;
   int newval  = 1;
   int success = 0;
 
   do {
+     oldval = 0;
      success = __atomic_compare_exchange_n (lock, &oldval, newval, 1,
     		 __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
   } while (!success);
-- 
2.43.0


From b1fb3cb413d90e484e425ef9de54cd3dd630846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 63/71] fix: barriers of the generic atomics order the
 processor, not only the compiler

---
 src/sasatom_generic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sasatom_generic.h b/src/sasatom_generic.h
index 37ebc11..2605ca2 100644
--- a/src/sasatom_generic.h
+++ b/src/sasatom_generic.h
@@ -9,9 +9,9 @@
 #ifndef _SASATOMIC_GENERIC_H
 #define _SASATOMIC_GENERIC_H
 
-#define __arch_sas_write_barrier() __asm ("" ::: "memory")
-#define __arch_sas_read_barrier()  __asm ("" ::: "memory")
-#define __arch_sas_full_barrier()  __asm ("" ::: "memory")
+#define __arch_sas_write_barrier() __sync_synchronize()
+#define __arch_sas_read_barrier()  __sync_synchronize()
+#define __arch_sas_full_barrier()  __sync_synchronize()
 
 static inline void
 __arch_pause (void)
-- 
2.43.0


From febde592ae23fdbfdeb392906c1383c436035965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 64/71] fix: generic atomics for old compilers update the given
 pointer and report a failed swap

---
 src/sasatom_generic.h   | 4 ++--
 src/sasatom_loongarch.h | 4 ++--
 src/sasatom_riscv.h     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sasatom_generic.h b/src/sasatom_generic.h
index 2605ca2..1490b95 100644
--- a/src/sasatom_generic.h
+++ b/src/sasatom_generic.h
@@ -34,7 +34,7 @@ __arch_fetch_and_add_ptr(void **pointer, long int delta)
 static inline void *
 __arch_fetch_and_add_ptr(void **pointer, long int delta)
 {
-  return (void*)__sync_fetch_and_add((long int*)*pointer, delta);
+  return (void*)__sync_fetch_and_add((long int*)pointer, delta);
 }
 #endif
 
@@ -64,7 +64,7 @@ __arch_compare_and_swap (volatile long int *pointer,
 static inline int
 __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 {
-  return __sync_val_compare_and_swap(p, oldval, newval);
+  return __sync_bool_compare_and_swap(p, oldval, newval);
 }
 #endif
 
diff --git a/src/sasatom_loongarch.h b/src/sasatom_loongarch.h
index e0e5fe8..4aa0b0e 100644
--- a/src/sasatom_loongarch.h
+++ b/src/sasatom_loongarch.h
@@ -34,7 +34,7 @@ __arch_fetch_and_add_ptr(void **pointer, long int delta)
 static inline void *
 __arch_fetch_and_add_ptr(void **pointer, long int delta)
 {
-  return (void*)__sync_fetch_and_add((long int*)*pointer, delta);
+  return (void*)__sync_fetch_and_add((long int*)pointer, delta);
 }
 #endif
 
@@ -64,7 +64,7 @@ __arch_compare_and_swap (volatile long int *pointer,
 static inline int
 __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 {
-  return __sync_val_compare_and_swap(p, oldval, newval);
+  return __sync_bool_compare_and_swap(p, oldval, newval);
 }
 #endif
 
diff --git a/src/sasatom_riscv.h b/src/sasatom_riscv.h
index 0a47fec..a095e37 100644
--- a/src/sasatom_riscv.h
+++ b/src/sasatom_riscv.h
@@ -34,7 +34,7 @@ __arch_fetch_and_add_ptr(void **pointer, long int delta)
 static inline void *
 __arch_fetch_and_add_ptr(void **pointer, long int delta)
 {
-  return (void*)__sync_fetch_and_add((long int*)*pointer, delta);
+  return (void*)__sync_fetch_and_add((long int*)pointer, delta);
 }
 #endif
 
@@ -64,7 +64,7 @@ __arch_compare_and_swap (volatile long int *pointer,
 static inline int
 __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 {
-  return __sync_val_compare_and_swap(p, oldval, newval);
+  return __sync_bool_compare_and_swap(p, oldval, newval);
 }
 #endif
 
-- 
2.43.0


From ba7f3c2be72b9bb04176b37c528dbf6892c6f029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 65/71] fix: the x86 fetch and add assembly may not be left out
 when its result is unused

---
 src/sasatom_i386.h   | 4 ++--
 src/sasatom_x86_64.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sasatom_i386.h b/src/sasatom_i386.h
index 8a41c95..9569a84 100644
--- a/src/sasatom_i386.h
+++ b/src/sasatom_i386.h
@@ -31,7 +31,7 @@ static inline void *
 __arch_fetch_and_add_ptr (void**pointer, long int delta)
 {
   void *temp = (void*)delta;
-  __asm__ (
+  __asm__ __volatile__ (
     "  lock;"
     "  xaddl %0,(%1);"
    : "+r" (temp)
@@ -46,7 +46,7 @@ __arch_fetch_and_add (void *pointer, long int delta)
 {
   long temp = delta;
 
-  __asm__ (
+  __asm__ __volatile__ (
     " lock;"
     " xaddl %0,(%1);"
    : "+r" (temp)
diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index e1c75df..f579eda 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -54,7 +54,7 @@ static inline void *
 __arch_fetch_and_add_ptr (void **pointer, long int delta)
 {
   void *temp = (void*)delta;
-  __asm__ (
+  __asm__ __volatile__ (
     "  lock;"
     "  xadd %0,(%1);"
    : "+r" (temp)
@@ -69,7 +69,7 @@ __arch_fetch_and_add (long *pointer, long int delta)
 {
   long temp = delta;
 
-  __asm__ (
+  __asm__ __volatile__ (
     " lock;"
     " xadd %0,(%1);"
    : "+r" (temp)
-- 
2.43.0


From 273d1018fdfae4ab36474689e2db90d601923904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:14 +0000
Subject: [PATCH 66/71] fix: region bookkeeping without storage for a list node
 refuses the block instead of crashing

---
 src/sassim.cpp | 164 +++++++++++++++++++++++++++++++++++++++----------
 src/ultree.cpp |   4 +-
 src/ultree.h   |   2 +-
 3 files changed, 136 insertions(+), 34 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index a388b6c..f4ecc08 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -207,7 +207,51 @@ SASS2Log2 (unsigned long size)
   return SizeToLog2 (size);
 }
 
+// Next node of the chain
+static uLongTreeNode *
+p2NextNode (uLongTreeNode ** chain)
+{
+  uLongTreeNode *n = *chain;
+
+  if (n)
+    *chain = (uLongTreeNode *) n->getInfo ();
+  return n;
+}
+
+// Give the nodes of the chain back
 static void
+p2GiveNodes (uLongTreeNode ** chain)
+{
+  uLongTreeNode *n;
+
+  while ((n = p2NextNode (chain)) != NULL)
+    SASNearDealloc (n, sizeof (uLongTreeNode));
+}
+
+// Take cnt nodes, chained by their info fields, before a list is changed.
+// Returns false, and takes none, if there are not as many.
+static bool
+p2TakeNodes (uLongTreeNode ** root, unsigned int cnt, uLongTreeNode ** chain)
+{
+  uLongTreeNode *n;
+
+  *chain = NULL;
+  for (; cnt > 0; cnt--)
+    {
+      n = (uLongTreeNode *) SASNearAlloc (root, sizeof (uLongTreeNode));
+      if (!n)
+	{
+	  p2GiveNodes (chain);
+	  return false;
+	}
+      n->init (0, (unsigned long) *chain);
+      *chain = n;
+    }
+  return true;
+}
+
+// Returns false, and adds nothing, if there is no storage for the node
+static bool
 p2AddUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 {
   uLongTreeNode *n;
@@ -216,8 +260,11 @@ p2AddUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 
   keys = nodeToLong (offset, SizeToLog2 (size));
   n = (uLongTreeNode *) SASNearAlloc (root, sizeof (uLongTreeNode));
+  if (!n)
+    return false;
   n->init (keys, (unsigned long) loc);
   (*root)->insertNode (root, n);
+  return true;
 }
 
 //#define __SASDebugPrint__ 1
@@ -286,12 +333,15 @@ p2FindCont (uLongTreeNode ** root, unsigned long size, void *loc)
   return r;
 }
 
-// Find containing block on used list for dealloc block
-static void
+// Split containing block on used list for dealloc block.  Returns the node
+// that is left over, or NULL, with the containing block back on the list,
+// if there are not enough nodes for the parts.
+static uLongTreeNode *
 p2split (uLongTreeNode ** root, unsigned long size, void *loc,
 	 uLongTreeNode* cblock)
 {
   uLongTreeNode *n;
+  uLongTreeNode *parts;
   unsigned long keys;
   unsigned long k, l;
   unsigned long offset = ((long) loc) - memLow;
@@ -308,7 +358,12 @@ p2split (uLongTreeNode ** root, unsigned long size, void *loc,
 #ifdef __SASDebugPrint__
   sas_printf ("p2split (%p, %u by %u)\n", (void*) tloc, csize, asize);
 #endif
-  SASNearDealloc (cblock, sizeof(uLongTreeNode));
+  if (!p2TakeNodes (root, csize - asize, &parts))
+    {
+      cblock->init (keys, tloc);
+      (*root)->insertNode (root, cblock);
+      return NULL;
+    }
   tsize = csize;
   toff = coff;
 
@@ -320,7 +375,7 @@ p2split (uLongTreeNode ** root, unsigned long size, void *loc,
       tsize--;
       moff = toff + (1L << (tsize + 12));
       mloc = tloc + (1L << (tsize + 12));
-      n = (uLongTreeNode *) SASNearAlloc (root, sizeof(uLongTreeNode));
+      n = p2NextNode (&parts);
       if (aoff >= moff)
 	{
 	  k = nodeToLong (toff, tsize);
@@ -351,9 +406,12 @@ p2split (uLongTreeNode ** root, unsigned long size, void *loc,
   sas_printf (" <Split\n");
 #endif
 
+  return cblock;
 }
 
-static void
+// Returns the node the block had on the list, NULL if the block was not
+// on the list or could not be taken off it.
+static uLongTreeNode *
 p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 {
   uLongTreeNode *n, *c;
@@ -376,14 +434,13 @@ p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 	  l = n->getInfo ();
 	  if ((k == keys) && (l == (unsigned long) loc))
 	    {
-	      n = n->removeNode (nn);
-	      SASNearDealloc (n, sizeof(uLongTreeNode));
+	      return n->removeNode (nn);
 	    }
 	  else
 	    {
 	      c = p2FindCont (root, size, loc);
 	      if (c)
-		p2split (root, size, loc, c);
+		return p2split (root, size, loc, c);
 	      else
 		{
 		  sas_printf ("!SASRemUsed3 integrity check failed\n");
@@ -398,13 +455,14 @@ p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
     {
       c = p2FindCont (root, size, loc);
       if (c)
-	p2split (root, size, loc, c);
+	return p2split (root, size, loc, c);
       else
 	{
 	  sas_printf ("!SASRemUsed1 integrity check failed\n");
 	  sas_printf ("  returning %p size %p\n", loc, (void *) size);
 	}
     }
+  return NULL;
 }
 
 static void *
@@ -412,6 +470,7 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
 {
   uLongTreeNode *n;
   uLongTreeNode **nn;
+  uLongTreeNode *parts = NULL;
   unsigned long k, l, m;
   unsigned long keys;
   unsigned long result = 0;
@@ -436,11 +495,16 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
 #ifdef __SASDebugPrint__
 	  sas_printf ("Found->%p-%p\n", (void *) k, (void *) l);
 #endif
+	  ui = longToOffset (k);
+	  uj = longToSize (k);
+	  if (j + 1 < uj && !p2TakeNodes (root, uj - j - 1, &parts))
+	    {
+	      sas_printf ("p2Alloc:: no storage for the parts!\n");
+	      return NULL;
+	    }
 	  n = n->removeNode (nn);
 	  if (n)
 	    {
-	      ui = longToOffset (k);
-	      uj = longToSize (k);
 	      result = l;	// nodeToLong(ui, j);
 	      if (j == uj)
 		{
@@ -455,9 +519,7 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
 		    {
 		      uj--;
 		      if (!n)
-			n = (uLongTreeNode *) SASNearAlloc (root,
-							    sizeof
-							    (uLongTreeNode));
+			n = p2NextNode (&parts);
 		      k = nodeToLong (ui + logTable[uj], uj);
 		      m = l + logTable[uj];
 #ifdef __SASDebugPrint__
@@ -496,8 +558,11 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
 }
 
 //#define __SASDebugPrint__ 1
-static void
-p2Dealloc (uLongTreeNode ** root, unsigned long size, void *loc)
+// spare is a node to be used, NULL to get one.  Returns false, and changes
+// nothing, if there is no storage for a node.
+static bool
+p2Dealloc (uLongTreeNode ** root, unsigned long size, void *loc,
+	   uLongTreeNode * spare = NULL)
 {
   uLongTreeNode *n;
   uLongTreeNode **nn;
@@ -533,7 +598,10 @@ p2Dealloc (uLongTreeNode ** root, unsigned long size, void *loc)
 	      sas_printf (" @%p", (void *) n->getKey ());
 #endif
 	      n = n->removeNode (nn);
-	      SASNearDealloc (n, sizeof (uLongTreeNode));
+	      if (spare)
+		SASNearDealloc (n, sizeof (uLongTreeNode));
+	      else
+		spare = n;
 	      n = NULL;
 	      if (keys > k)
 		{
@@ -566,20 +634,25 @@ p2Dealloc (uLongTreeNode ** root, unsigned long size, void *loc)
     }
   while (flag);
 
-  if (!n)
+  if (spare)
+    n = spare;
+  else
     n = (uLongTreeNode *) SASNearAlloc (root, sizeof (uLongTreeNode));
+  if (!n)
+    return false;
 
   n->init (keys, val);
   (*root)->insertNode (root, n);
 #ifdef __SASDebugPrint__
   sas_printf ("\n -->%p,%p\n", (void *) keys, (void *) val);
 #endif
+  return true;
 }
 
-static void
+static bool
 p2AddUsedCompact (uLongTreeNode ** root, unsigned long size, void *loc)
 {
-  p2Dealloc (root, size, loc);
+  return p2Dealloc (root, size, loc);
 }
 
 unsigned long
@@ -1124,6 +1197,27 @@ SASRemoveAllocatedSegs ()
   while (n);
 }
 
+// Put a block taken from a free list on the used list, or back, returning
+// NULL, if there is no storage for the node.
+static void *
+p2Use (uLongTreeNode ** root, unsigned long size, void *loc)
+{
+  SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
+  uLongTreeNode **uu = &(anchor->anchors.used);
+  bool used;
+
+  if (anchor->anchors.rFlags.compactUseList)
+    used = p2AddUsedCompact (uu, size, loc);
+  else
+    used = p2AddUsed (uu, size, loc);
+  if (!used)
+    {
+      p2Dealloc (root, size, loc);
+      loc = NULL;
+    }
+  return loc;
+}
+
 void *
 SASBlockAllocNoLock (unsigned long blockSize)
 {
@@ -1149,19 +1243,22 @@ SASBlockAllocNoLock (unsigned long blockSize)
       temp = p2Alloc (nn, blockSize);
       if (temp)
 	{
-	  if (anchor->anchors.rFlags.compactUseList)
-	    p2AddUsedCompact (uu, blockSize, temp);
-	  else
-	    p2AddUsed (uu, blockSize, temp);
+	  temp = p2Use (nn, blockSize, temp);
 	}
       else
 	{
-	  void *segAddr;
+	  void *segAddr = NULL;
+	  uLongTreeNode *nodes;
 #ifdef __SASDebugPrint__
 	  sas_printf ("SASBlockAlloc no uncommitted %lx\n", blockSize);
 #endif
 	  nn = &(anchor->anchors.region);
-	  segAddr = p2Alloc (nn, SegmentSize);
+	  // no new segment without storage to keep track of its blocks
+	  if (p2TakeNodes (nn, 2 * maxLog2, &nodes))
+	    {
+	      p2GiveNodes (&nodes);
+	      segAddr = p2Alloc (nn, SegmentSize);
+	    }
 	  if (segAddr)
 	    {
 	      if (!SASCreateSegByAddr (segAddr, SegmentSize))
@@ -1186,10 +1283,7 @@ SASBlockAllocNoLock (unsigned long blockSize)
     }
   else
     {
-      if (anchor->anchors.rFlags.compactUseList)
-	p2AddUsedCompact (uu, blockSize, temp);
-      else
-	p2AddUsed (uu, blockSize, temp);
+      temp = p2Use (nn, blockSize, temp);
     }
   return temp;
 }
@@ -1220,10 +1314,16 @@ SASBlockDealloc (void *blockAddr, unsigned long blockSize)
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode **nn = &(anchor->anchors.free);
   uLongTreeNode **uu = &(anchor->anchors.used);
+  uLongTreeNode *node;
 
   SASSeize ();
   uu = &(anchor->anchors.used);
-  p2RemUsed (uu, blockSize, blockAddr);
+  node = p2RemUsed (uu, blockSize, blockAddr);
+  if (!node)
+    {
+      SASRelease ();
+      return;
+    }
 
 //  initialize block to zeros, needed only in windows/AIX/OS2
   if (blockSize > 4096)
@@ -1239,7 +1339,7 @@ SASBlockDealloc (void *blockAddr, unsigned long blockSize)
       SASSeize ();
     }
   nn = &(anchor->anchors.free);
-  p2Dealloc (nn, blockSize, blockAddr);
+  p2Dealloc (nn, blockSize, blockAddr, node);
   SASRelease ();
 }
 
diff --git a/src/ultree.cpp b/src/ultree.cpp
index 5576e79..85c3209 100644
--- a/src/ultree.cpp
+++ b/src/ultree.cpp
@@ -33,7 +33,7 @@ uLongTreeNode::init(search_t k, info_t i)
 };
 
 void *
-uLongTreeNode::operator new (size_t , uLongTreeNode * root)
+uLongTreeNode::operator new (size_t , uLongTreeNode * root) throw ()
 {
   return SASNearAlloc(root, sizeof(uLongTreeNode));
 };
@@ -339,6 +339,8 @@ uLongTreeNode
     sas_printf("uLongTreeNode::insertNode\n");
 #endif
     uLongTreeNode *n = (uLongTreeNode *)SASNearAlloc(root, sizeof(uLongTreeNode));
+    if (!n)
+	return NULL;
     n->init(k, i);
 
     p = *root;
diff --git a/src/ultree.h b/src/ultree.h
index 0702557..0a68b45 100644
--- a/src/ultree.h
+++ b/src/ultree.h
@@ -49,7 +49,7 @@ class uLongTreeNode {
 		  };
 		void init(search_t k, info_t i);
 		void kill();
-		void * operator new (size_t, uLongTreeNode * root);
+		void * operator new (size_t, uLongTreeNode * root) throw ();
 		void operator delete( void *deadObject );
 		uLongTreeNode * insertNode (uLongTreeNode **root,
 					    search_t k, info_t i);
-- 
2.43.0


From 3dbd8d1e18338879077073dcf151e5ed5d1777d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:24 +0000
Subject: [PATCH 67/71] fix: a tree node that its page cannot hold is refused
 instead of going through the missing arrays

---
 src/sasindex.cpp           | 41 ++++++++++++++++++++++++--------------
 src/sasindexnode.cpp       | 11 +++++++++-
 src/sasstringbtree.cpp     | 41 ++++++++++++++++++++++++--------------
 src/sasstringbtreenode.cpp | 11 +++++++++-
 4 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 936a21d..4217b18 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -332,7 +332,10 @@ SASIndexAllocInternal (SASIndexHeader *headerBlock)
 			simpleBlock = (SASBlockHeader*)mem;
 			newHeap = SASIndexNodeInit (mem, SAS_RUNTIME_INDEXNODE, 
 			                             simpleSize);
-			simpleBlock->baseBlock = (SASBlockHeader*)headerBlock;
+			if (newHeap != NULL)
+				simpleBlock->baseBlock = (SASBlockHeader*)headerBlock;
+			else
+				SASIndexFreeInternal (headerBlock, mem);
 		}
 	}
 	return newHeap;
@@ -1397,13 +1400,17 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			    result = true;
 		    } 
 		} else {
-		    btree->root = SASIndexAlloc(heap);
-		    SASIndexNodeInitialize(btree->root, key, value, LOCK_OFF);
-		    SASIndexUpdateMin(heap, key);
-		    SASIndexUpdateMax(heap, key);
-			btree->common->modCount++;
-			btree->common->count++;
-			result = true;
+		    SASIndexNode_t node = SASIndexAlloc(heap);
+		    if (node != NULL)
+			{
+			    btree->root = node;
+			    SASIndexNodeInitialize(node, key, value, LOCK_OFF);
+			    SASIndexUpdateMin(heap, key);
+			    SASIndexUpdateMax(heap, key);
+				btree->common->modCount++;
+				btree->common->count++;
+				result = true;
+			}
 		};
 		SASUnlock(heap);
     }
@@ -1436,13 +1443,17 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			    result = true;
 		    }
 		} else {
-		    btree->root = SASIndexAllocNoLock(heap);
-		    SASIndexNodeInitialize(btree->root, key, value, LOCK_OFF);
-		    SASIndexUpdateMin(heap, key);
-		    SASIndexUpdateMax(heap, key);
-			btree->common->modCount++;
-			btree->common->count++;
-			result = true;
+		    SASIndexNode_t node = SASIndexAllocNoLock(heap);
+		    if (node != NULL)
+			{
+			    btree->root = node;
+			    SASIndexNodeInitialize(node, key, value, LOCK_OFF);
+			    SASIndexUpdateMin(heap, key);
+			    SASIndexUpdateMax(heap, key);
+				btree->common->modCount++;
+				btree->common->count++;
+				result = true;
+			}
 		};
     }
 	return result; /* False indicates duplicate key */
diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index 3164ff3..bed818b 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -126,6 +126,10 @@ SASIndexNodeInit (void *heap_seg, sas_type_t sasType, block_size_t heap_size)
     SASIndexNodeAllocNoLock ((SASIndexNode_t) heapBlock,
 			     (sizeof (void *) * (heapBlock->max_count + 1)));
 
+  if (heapBlock->keys == NULL || heapBlock->branch == NULL
+      || heapBlock->vals == NULL)
+    return NULL;		/* block too small for a node */
+
   heapBlock->spill = NULL;
   heapBlock->spill2 = NULL;
   heapBlock->spill3 = NULL;
@@ -148,7 +152,12 @@ SASIndexNodeCreate (block_size_t heap_size)
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
   if (heapBlock)
     {
-      return SASIndexNodeInit (heapBlock, SAS_RUNTIME_INDEXNODE, heap_size);
+      SASIndexNode_t node;
+
+      node = SASIndexNodeInit (heapBlock, SAS_RUNTIME_INDEXNODE, heap_size);
+      if (node == NULL)
+	SASBlockDealloc (heapBlock, heap_size);
+      return node;
     }
   else
     return NULL;
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 0d3edb3..1da2c3a 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -347,7 +347,10 @@ SASStringBTreeAllocInternal (SASStringBTreeHeader * headerBlock)
 	  simpleBlock = (SASBlockHeader *) mem;
 	  newHeap = SASStringBTreeNodeInit (mem, SAS_RUNTIME_STRINGBTREENODE,
 					    simpleSize);
-	  simpleBlock->baseBlock = (SASBlockHeader *) headerBlock;
+	  if (newHeap != NULL)
+	    simpleBlock->baseBlock = (SASBlockHeader *) headerBlock;
+	  else
+	    SASStringBTreeFreeInternal (headerBlock, mem);
 	}
     }
   return newHeap;
@@ -1532,13 +1535,17 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 	}
       else
 	{
-	  btree->root = SASStringBTreeAlloc (heap);
-	  SASStringBTreeNodeInitialize (btree->root, key, value, LOCK_OFF);
-	  SASStringBTreeUpdateMin (heap, key);
-	  SASStringBTreeUpdateMax (heap, key);
-	  btree->common->modCount++;
-	  btree->common->count++;
-	  result = true;
+	  SASStringBTreeNode_t node = SASStringBTreeAlloc (heap);
+	  if (node != NULL)
+	    {
+	      btree->root = node;
+	      SASStringBTreeNodeInitialize (node, key, value, LOCK_OFF);
+	      SASStringBTreeUpdateMin (heap, key);
+	      SASStringBTreeUpdateMax (heap, key);
+	      btree->common->modCount++;
+	      btree->common->count++;
+	      result = true;
+	    }
 	};
       SASUnlock (heap);
     }
@@ -1572,13 +1579,17 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
         }
       else
         {
-          btree->root = SASStringBTreeAllocNoLock (heap);
-          SASStringBTreeNodeInitialize (btree->root, key, value, LOCK_OFF);
-          SASStringBTreeUpdateMin (heap, key);
-          SASStringBTreeUpdateMax (heap, key);
-          btree->common->modCount++;
-          btree->common->count++;
-          result = true;
+          SASStringBTreeNode_t node = SASStringBTreeAllocNoLock (heap);
+          if (node != NULL)
+            {
+              btree->root = node;
+              SASStringBTreeNodeInitialize (node, key, value, LOCK_OFF);
+              SASStringBTreeUpdateMin (heap, key);
+              SASStringBTreeUpdateMax (heap, key);
+              btree->common->modCount++;
+              btree->common->count++;
+              result = true;
+            }
         };
     }
   return result;                /* False indicates duplicate key */
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 9c16361..2bd3aae 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -138,6 +138,10 @@ SASStringBTreeNodeInit (void *heap_seg, sas_type_t sasType,
 				   (sizeof (void *) *
 				    (heapBlock->max_count + 1)));
 
+  if (heapBlock->keys == NULL || heapBlock->branch == NULL
+      || heapBlock->vals == NULL)
+    return NULL;		/* block too small for a node */
+
   heapBlock->spill = NULL;
   heapBlock->spill2 = NULL;
   heapBlock->spill3 = NULL;
@@ -160,8 +164,13 @@ SASStringBTreeNodeCreate (block_size_t heap_size)
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
   if (heapBlock)
     {
-      return SASStringBTreeNodeInit (heapBlock,
+      SASStringBTreeNode_t node;
+
+      node = SASStringBTreeNodeInit (heapBlock,
 				     SAS_RUNTIME_STRINGBTREENODE, heap_size);
+      if (node == NULL)
+	SASBlockDealloc (heapBlock, heap_size);
+      return node;
     }
   else
     return NULL;
-- 
2.43.0


From d8e1c1c054efb2d4e9e01fcf8e15aaf3efef2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:24 +0000
Subject: [PATCH 68/71] fix: a tree that cannot expand further gives the new
 block back

---
 src/sasindex.cpp       | 3 ++-
 src/sasstringbtree.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 4217b18..8b7eea9 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -281,11 +281,12 @@ SASIndexExpandCreate (SASIndex_t heap)
 			list->heap[list->count] = newHeader;
 			list->count++;
 			prevHeader->blockHeader.nextBlock = &newHeader->blockHeader;
-#ifdef __SASDebugPrint__
 	    } else {
+#ifdef __SASDebugPrint__
 	    	sas_printf("SASIndexExpandCreate(%p) failed\n", 
 	    	           headerBlock);
 #endif
+	    	SASBlockDealloc (heapBlock, heap_size);
     	}
     }
     return newHeap;
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 1da2c3a..e754cc8 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -295,12 +295,13 @@ SASStringBTreeExpandCreate (SASStringBTree_t heap)
 	  list->heap[list->count] = newHeader;
 	  list->count++;
 	  prevHeader->blockHeader.nextBlock = &newHeader->blockHeader;
-#ifdef __SASDebugPrint__
 	}
       else
 	{
+#ifdef __SASDebugPrint__
 	  sas_printf ("SASStringBTreeExpandCreate(%p) failed\n", headerBlock);
 #endif
+	  SASBlockDealloc (heapBlock, heap_size);
 	}
     }
   return newHeap;
-- 
2.43.0


From 3c67b63a2efacec99846315c2196ceee9fe13e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:24 +0000
Subject: [PATCH 69/71] fix: SASSOMAlloc does not clear a block it did not get

---
 src/sasalloc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index eedc213..dd1f897 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -317,6 +317,9 @@ void* SASSOMAlloc (long blockSize, long /*allocSize*/)
 
 #ifndef __SAS__
 //#ifndef __SASSIM__
+    if ( temp == NULL )
+	return NULL;
+
     long	*first	= (long *)temp;
     long	*last	= &first[(blockSize / sizeof(long)) - 1];
     // initialize block to zeros
-- 
2.43.0


From c4ea0ce0bb89294e6053eb247efd50e61cda2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:06 +0000
Subject: [PATCH 70/71] fix: SASLockReset starts over with an empty lock table
 instead of using up its storage

---
 src/saslock.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index 4508ccd..ca2555a 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -36,7 +36,9 @@ SASLockReset (void)
     }
     
     void *lock_addr = (void *)__SAS_TEMP_ADDRESS;
-    SASBlockHeader *shm_locks = (SASBlockHeader*)lock_addr;
+    SASBlockHeader *shm_locks = (SASBlockHeader*)SASSimpleHeapInit( lock_addr,
+							SAS_RUNTIME_LOCKTABLE,
+							__SAS_SHMAP_MAX );
 
     ml = new (shm_locks) SasMasterLock(kMasterLockSize);
     setSASBlockSpecial (lock_addr, ml);
-- 
2.43.0


From 6f3a1bdcfceee9d94976ed493b074c9488842538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:52 +0000
Subject: [PATCH 71/71] fix: bit vector allocations end their search when
 nothing fits

bitv_alloc, bitv_aligned_alloc and bitv_aligned_alloc_marked came round
for ever when the word had enough free units between its first and last
free one but no fitting run (or no aligned one).
---
 src/bitv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 2518ae2..40a913b 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -114,6 +114,8 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
 	  else
 	    {
 	      req_msk >>= 1;
+	      if (i == (bits_per_long - alloc_units))
+		cur_msk = 0UL;
 	    }
 	}
     }
@@ -283,7 +285,7 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 	  else
 	    {
 	      req_msk >>= align_units;
-	      if (req_msk == 0UL)
+	      if (i + align_units > (bits_per_long - alloc_units))
 		cur_msk = 0UL;
 	    }
 	}
@@ -382,7 +384,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 	    }
 	  else
 	    {
-	      if (i < (bits_per_long - alloc_units))
+	      if (i + align_units <= (bits_per_long - alloc_units))
 		req_msk >>= align_units;
 	      else
 		cur_msk = 0UL;
-- 
2.43.0

