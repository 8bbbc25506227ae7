From cd1335446d06eeb8c412301171c9d088f47903f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 01/29] fix: removed set members leave a reusable, counted
 tombstone

Removing the same value twice succeeded twice, and the table could fill
with tombstones so that the next insertion or lookup never terminated.
---
 src/vm/datatypes/sets.c |  2 +-
 src/vm/object.c         |  3 ++-
 src/vm/object.h         |  1 +
 src/vm/value.c          | 12 ++++++++----
 src/vm/vm.c             |  2 +-
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/vm/datatypes/sets.c b/src/vm/datatypes/sets.c
index f890768..e74376b 100644
--- a/src/vm/datatypes/sets.c
+++ b/src/vm/datatypes/sets.c
@@ -40,7 +40,7 @@ static Value lenSet(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjSet *set = AS_SET(args[0]);
-    return NUMBER_VAL(set->count);
+    return NUMBER_VAL(set->activeCount);
 }
 
 static Value addSetItem(DictuVM *vm, int argCount, Value *args) {
diff --git a/src/vm/object.c b/src/vm/object.c
index 413b29b..a8d43c3 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -176,6 +176,7 @@ ObjDict *newDict(DictuVM *vm) {
 ObjSet *newSet(DictuVM *vm) {
     ObjSet *set = ALLOCATE_OBJ(vm, ObjSet, OBJ_SET);
     set->count = 0;
+    set->activeCount = 0;
     set->capacityMask = -1;
     set->entries = NULL;
     return set;
@@ -516,7 +517,7 @@ char *setToString(Value value) {
             free(element);
         }
 
-        if (count != set->count) {
+        if (count != set->activeCount) {
             memcpy(setString + setStringLength, ", ", 2);
             setStringLength += 2;
         }
diff --git a/src/vm/object.h b/src/vm/object.h
index 69ff5cc..2bfbd32 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -159,6 +159,7 @@ typedef struct {
 struct sObjSet {
     Obj obj;
     int count;
+    int activeCount;
     int capacityMask;
     SetItem *entries;
 };
diff --git a/src/vm/value.c b/src/vm/value.c
index d06e696..0995006 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -252,7 +252,10 @@ bool setInsert(DictuVM *vm, ObjSet *set, Value value) {
     entry->value = value;
     entry->deleted = false;
 
-    if (isNewKey) set->count++;
+    if (isNewKey) {
+        set->activeCount++;
+        set->count++;
+    }
 
     return isNewKey;
 }
@@ -264,7 +267,8 @@ bool setDelete(DictuVM *vm, ObjSet *set, Value value) {
     if (IS_EMPTY(entry->value)) return false;
 
     // Place a tombstone in the entry.
-    set->count--;
+    set->activeCount--;
+    entry->value = EMPTY_VAL;
     entry->deleted = true;
 
     if (set->count - 1 < set->capacityMask * TABLE_MIN_LOAD) {
@@ -468,12 +472,12 @@ static bool setComparison(Value a, Value b) {
     ObjSet *setB = AS_SET(b);
 
     // Different lengths, not the same
-    if (set->count != setB->count)
+    if (set->activeCount != setB->activeCount)
         return false;
 
     // Lengths are the same, and dict 1 has 0 length
     // therefore both are empty
-    if (set->count == 0)
+    if (set->activeCount == 0)
         return true;
 
     for (int i = 0; i <= set->capacityMask; ++i) {
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1dc07fb..baa03df 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -822,7 +822,7 @@ bool isFalsey(Value value) {
            (IS_LIST(value) && AS_LIST(value)->values.count == 0) ||
            (IS_DICT(value) && AS_DICT(value)->count == 0) ||
            (IS_RESULT(value) && AS_RESULT(value)->status == ERR) ||
-           (IS_SET(value) && AS_SET(value)->count == 0);
+           (IS_SET(value) && AS_SET(value)->activeCount == 0);
 }
 
 static void concatenate(DictuVM *vm) {
-- 
2.43.0


From c97e3fa1221025ad62e8c0eccdb9d9d6a28d3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:15 +0000
Subject: [PATCH 02/29] fix: emptiness and printing of dictionaries ignore
 removed entries

---
 src/vm/object.c | 2 +-
 src/vm/vm.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index a8d43c3..b91d2b9 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -449,7 +449,7 @@ char *dictToString(Value value) {
            free(element);
        }
 
-       if (count != dict->count) {
+       if (count != dict->activeCount) {
            memcpy(dictString + dictStringLength, ", ", 2);
            dictStringLength += 2;
        }
diff --git a/src/vm/vm.c b/src/vm/vm.c
index baa03df..d04ab52 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -820,7 +820,7 @@ bool isFalsey(Value value) {
            (IS_NUMBER(value) && AS_NUMBER(value) == 0) ||
            (IS_STRING(value) && AS_CSTRING(value)[0] == '\0') ||
            (IS_LIST(value) && AS_LIST(value)->values.count == 0) ||
-           (IS_DICT(value) && AS_DICT(value)->count == 0) ||
+           (IS_DICT(value) && AS_DICT(value)->activeCount == 0) ||
            (IS_RESULT(value) && AS_RESULT(value)->status == ERR) ||
            (IS_SET(value) && AS_SET(value)->activeCount == 0);
 }
-- 
2.43.0


From 002efe5cd4bb8e3b9cbbea426f39a62ecd14042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 03/29] fix: a collection marks exactly the queued elements

A full queue whose contents wrap around lost the wrapped part, and an
emptied queue kept marking elements that may already have been freed.
---
 src/optionals/queue.c | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index f09a76c..3fa29ab 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -34,25 +34,13 @@ void grayQueue(DictuVM *vm, ObjAbstract *abstract) {
 
     if (queue == NULL) return;
 
-    if (queue->count == queue->capacity) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
+    int index = queue->front;
 
-        return;
-    }
+    for (int i = 0; i < queue->count; ++i) {
+        grayValue(vm, queue->dq[index]);
 
-    if (queue->rear + 1 < queue->front) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-
-        for (int i = 0; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-    } else {
-        for (int i = queue->front; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
+        if (++index == queue->capacity) {
+            index = 0;
         }
     }
 }
-- 
2.43.0


From 8859cf139bee205be6b4690aca7bc24c38245b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 04/29] fix: growing a wrapped queue keeps its elements and
 their order

---
 src/optionals/queue.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index 3fa29ab..aa026d3 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -112,8 +112,16 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
 
     if (queue->capacity < queue->count + 1) {
         int oldCapacity = queue->capacity;
-        queue->capacity = GROW_CAPACITY(oldCapacity);
-        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, queue->capacity);
+        int newCapacity = GROW_CAPACITY(oldCapacity);
+        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, newCapacity);
+        queue->capacity = newCapacity;
+
+        // Keep the elements that wrapped around contiguous with the rest.
+        if (queue->front > 0) {
+            int tail = oldCapacity - queue->front;
+            memmove(&queue->dq[newCapacity - tail], &queue->dq[queue->front], sizeof(Value) * tail);
+            queue->front = newCapacity - tail;
+        }
     }
 
     if (queue->rear == queue->capacity-1) {
-- 
2.43.0


From cb782db6c4bc95e3a3908cf91a0083fa4a63f46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 05/29] fix: peek() on an empty queue or stack is an error

---
 src/optionals/queue.c | 7 ++++++-
 src/optionals/stack.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index aa026d3..e3eb4a3 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -98,7 +98,12 @@ static Value queuePeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Queue *queue = AS_QUEUE(args[0]);
-    
+
+    if (queue->count == 0) {
+        runtimeError(vm, "peek() called on an empty queue");
+        return EMPTY_VAL;
+    }
+
     return queue->dq[queue->front];
 }
 
diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 3916291..0728071 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -90,7 +90,12 @@ static Value stackPeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Stack *stack = AS_STACK(args[0]);
-    
+
+    if (stack->top == 0) {
+        runtimeError(vm, "peek() called on an empty stack");
+        return EMPTY_VAL;
+    }
+
     return stack->ds[stack->top - 1];
 }
 
-- 
2.43.0


From 57dd3bd7d707e23fa66ff8a329ae8a6867d0d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:38 +0000
Subject: [PATCH 06/29] fix: a fractional queue or stack size is accounted as
 allocated

---
 src/optionals/queue.c | 6 +++---
 src/optionals/stack.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index e3eb4a3..699faf1 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -139,7 +139,7 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
     return NIL_VAL;
 }
 
-Queue* createQueue(DictuVM *vm, double capacity);
+Queue* createQueue(DictuVM *vm, int capacity);
 
 static void shrinkQueue(DictuVM *vm, Queue *queue) {
     int oldCapacity = queue->capacity;
@@ -195,7 +195,7 @@ static Value queuePop(DictuVM *vm, int argCount, Value *args) {
     return data;
 }
 
-Queue* createQueue(DictuVM *vm, double capacity) {
+Queue* createQueue(DictuVM *vm, int capacity) {
     Queue *queue = ALLOCATE(vm, Queue, 1);
     queue->dq = ALLOCATE(vm, Value, capacity);
     queue->capacity = capacity;
@@ -206,7 +206,7 @@ Queue* createQueue(DictuVM *vm, double capacity) {
     return queue;
 }
 
-ObjAbstract* newQueueObj(DictuVM *vm, double capacity) {
+ObjAbstract* newQueueObj(DictuVM *vm, int capacity) {
     ObjAbstract *abstract = newAbstract(vm, freeQueue, queueToString);
     push(vm, OBJ_VAL(abstract));
 
diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 0728071..ce972e3 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -141,7 +141,7 @@ static Value stackPop(DictuVM *vm, int argCount, Value *args) {
     return data;
 }
 
-ObjAbstract* newStackObj(DictuVM *vm, double capacity) {
+ObjAbstract* newStackObj(DictuVM *vm, int capacity) {
     ObjAbstract *abstract = newAbstract(vm, freeStack, stackToString);
     push(vm, OBJ_VAL(abstract));
 
-- 
2.43.0


From d3755f9740f1cd8811d13df6a023a22c8460b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 07/29] fix: list.pop() rejects the index one past the last
 element

---
 src/vm/datatypes/lists/lists.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 7389e39..9da894b 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -135,7 +135,7 @@ static Value popListItem(DictuVM *vm, int argCount, Value *args) {
         if (index < 0) {
             index = list->values.count + index;
         }
-        if (index < 0 || index > list->values.count) {
+        if (index < 0 || index >= list->values.count) {
             runtimeError(vm, "Index passed to pop() is out of bounds for the list given");
             return EMPTY_VAL;
         }
-- 
2.43.0


From 2ddc58c12e9cde89ab50d3c25114ea967439219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 08/29] fix: extending a list with itself terminates

---
 src/vm/datatypes/lists/lists.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 9da894b..3adaecf 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -50,7 +50,10 @@ static Value extendList(DictuVM *vm, int argCount, Value *args) {
     ObjList *list = AS_LIST(args[0]);
     ObjList *listArgument = AS_LIST(args[1]);
 
-    for (int i = 0; i < listArgument->values.count; i++) {
+    // The argument may be the list itself
+    int count = listArgument->values.count;
+
+    for (int i = 0; i < count; i++) {
         writeValueArray(vm, &list->values, listArgument->values.values[i]);
     }
 
-- 
2.43.0


From 1336b264aaa0c6659759b56ead3abf87cc7be073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:02 +0000
Subject: [PATCH 09/29] fix: strings are ordered by all their bytes, as
 unsigned characters

---
 src/vm/value.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/vm/value.c b/src/vm/value.c
index 0995006..e64a2a4 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -529,17 +529,17 @@ bool compareStringLess(Value a, Value b) {
 
     int i;
 
-    for (i = 0; firstString->chars[i] != '\0' || secondString->chars[i] != '\0'; i++) {
-        if (firstString->chars[i] < secondString->chars[i]) {
+    for (i = 0; i < firstString->length && i < secondString->length; i++) {
+        if ((unsigned char) firstString->chars[i] < (unsigned char) secondString->chars[i]) {
             return true;
         }
 
-        if (firstString->chars[i] > secondString->chars[i]) {
+        if ((unsigned char) firstString->chars[i] > (unsigned char) secondString->chars[i]) {
             return false;
         }
     }
 
-    if (secondString->chars[i] != '\0') {
+    if (i < secondString->length) {
         return true;
     }
 
@@ -553,17 +553,17 @@ bool compareStringGreater(Value a, Value b) {
 
     int i;
 
-    for (i = 0; firstString->chars[i] != '\0' || secondString->chars[i] != '\0'; i++) {
-        if (firstString->chars[i] > secondString->chars[i]) {
+    for (i = 0; i < firstString->length && i < secondString->length; i++) {
+        if ((unsigned char) firstString->chars[i] > (unsigned char) secondString->chars[i]) {
             return true;
         }
 
-        if (firstString->chars[i] < secondString->chars[i]) {
+        if ((unsigned char) firstString->chars[i] < (unsigned char) secondString->chars[i]) {
             return false;
         }
     }
 
-    if (firstString->chars[i] != '\0') {
+    if (i < firstString->length) {
         return true;
     }
 
-- 
2.43.0


From 14ae45724c525c9f75c9a29e185816c0124f164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:20 +0000
Subject: [PATCH 10/29] fix: a string that starts with a NUL character is not
 empty

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index d04ab52..261e57d 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -818,7 +818,7 @@ bool isFalsey(Value value) {
     return IS_NIL(value) ||
            (IS_BOOL(value) && !AS_BOOL(value)) ||
            (IS_NUMBER(value) && AS_NUMBER(value) == 0) ||
-           (IS_STRING(value) && AS_CSTRING(value)[0] == '\0') ||
+           (IS_STRING(value) && AS_STRING(value)->length == 0) ||
            (IS_LIST(value) && AS_LIST(value)->values.count == 0) ||
            (IS_DICT(value) && AS_DICT(value)->activeCount == 0) ||
            (IS_RESULT(value) && AS_RESULT(value)->status == ERR) ||
-- 
2.43.0


From 5b9ef825425d5d77711f279d957a43036dad7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:16 +0000
Subject: [PATCH 11/29] fix: sort orders strings by all their characters, as
 the comparison operators do

---
 src/vm/datatypes/lists/lists.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 3adaecf..2f977e2 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -314,7 +314,10 @@ static Value copyListDeep(DictuVM *vm, int argCount, Value *args) {
 
 
 int compareString(ObjString *operandOne, ObjString *operandTwo) {
-    return strcmp(operandOne->chars, operandTwo->chars);
+    int length = operandOne->length < operandTwo->length ? operandOne->length : operandTwo->length;
+    int order = memcmp(operandOne->chars, operandTwo->chars, length);
+
+    return order != 0 ? order : operandOne->length - operandTwo->length;
 }
 
 static int partitionStringList(ObjList *arr, int start, int end) {
-- 
2.43.0


From 06089ddf0b4031c20bba10d07be184da5a7a30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:40 +0000
Subject: [PATCH 12/29] fix: writing to a buffer in big endian order returns
 the value that was set

---
 src/optionals/buffer.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 1015693..9175a82 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -53,6 +53,7 @@ bool writeInternal(Buffer *buffer, size_t offset, uint8_t *data, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return false;
     memcpy(buffer->bytes + offset, data, len);
+    swap(buffer->bytes + offset, len, buffer->bigEndian);
     return true;
 }
 
@@ -148,7 +149,7 @@ static Value bufferWriteint8(DictuVM *vm, int argCount, Value *args) {
 
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 1");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -183,7 +184,7 @@ static Value bufferWriteUint16LE(DictuVM *vm, int argCount, Value *args) {
 
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 2");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -218,7 +219,7 @@ static Value bufferWriteUint32LE(DictuVM *vm, int argCount, Value *args) {
     uint32_t correctVal = (uint32_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -253,7 +254,7 @@ static Value bufferWriteUint64LE(DictuVM *vm, int argCount, Value *args) {
     uint64_t correctVal = (uint64_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -286,7 +287,7 @@ static Value bufferWriteint64LE(DictuVM *vm, int argCount, Value *args) {
     int64_t correctVal = (int64_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -320,7 +321,7 @@ static Value bufferWriteint32LE(DictuVM *vm, int argCount, Value *args) {
     int32_t correctVal = (int32_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -354,7 +355,7 @@ static Value bufferWriteint16LE(DictuVM *vm, int argCount, Value *args) {
     int16_t correctVal = (int16_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 2");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -388,7 +389,7 @@ static Value bufferWritefloat32LE(DictuVM *vm, int argCount, Value *args) {
     float correctVal = (float)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -424,7 +425,7 @@ static Value bufferWritefloat64LE(DictuVM *vm, int argCount, Value *args) {
 
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
-- 
2.43.0


From 76af999ed283185908127fda90445f2d14d65cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:40 +0000
Subject: [PATCH 13/29] fix: a buffer access outside the buffer is rejected for
 every index

---
 src/optionals/buffer.c | 43 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 9175a82..c903573 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -45,22 +45,25 @@ uint8_t *swap(uint8_t *ptr, size_t len, bool bigEndian) {
     return ptr;
 }
 
-bool ensureSize(Buffer *buffer, size_t offset, size_t size) {
-    return buffer->size - offset >= size;
+bool ensureSize(Buffer *buffer, double index, size_t size) {
+    if (!(index >= 0 && index < buffer->size))
+        return false;
+    return buffer->size - (size_t)index >= size;
 }
 
-bool writeInternal(Buffer *buffer, size_t offset, uint8_t *data, size_t len) {
-    if (!ensureSize(buffer, offset, len))
+bool writeInternal(Buffer *buffer, double index, uint8_t *data, size_t len) {
+    if (!ensureSize(buffer, index, len))
         return false;
+    size_t offset = index;
     memcpy(buffer->bytes + offset, data, len);
     swap(buffer->bytes + offset, len, buffer->bigEndian);
     return true;
 }
 
-uint8_t *getReadPtr(Buffer *buffer, size_t offset, size_t len) {
-    if (!ensureSize(buffer, offset, len))
+uint8_t *getReadPtr(Buffer *buffer, double index, size_t len) {
+    if (!ensureSize(buffer, index, len))
         return NULL;
-    return buffer->bytes + offset;
+    return buffer->bytes + (size_t)index;
 }
 
 static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
@@ -75,7 +78,7 @@ static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[1]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1 && capacity < BUFFER_SIZE_MAX)) {
         return newResultError(
             vm, "size must be greater than 0 and smaller than 2147483647");
     }
@@ -759,7 +762,7 @@ static Value bufferGet(DictuVM *vm, int argCount, Value *args) {
     }
 
     double index = AS_NUMBER(args[1]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -788,7 +791,7 @@ static Value bufferSet(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     double value = AS_NUMBER(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -820,7 +823,7 @@ static Value bufferWriteString(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     ObjString *str = AS_STRING(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -847,7 +850,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
-        if (startParam >= buffer->size) {
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        } else if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
         } else {
@@ -861,7 +866,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
-        if (endParam > buffer->size) {
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        } else if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
             end = endParam;
@@ -887,7 +894,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
-        if (startParam >= buffer->size) {
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        } else if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
         } else {
@@ -901,7 +910,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
-        if (endParam > buffer->size) {
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        } else if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
             end = endParam;
@@ -1003,7 +1014,7 @@ static Value newBuffer(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1 && capacity < BUFFER_SIZE_MAX)) {
         return newResultError(
             vm, "capacity must be greater than 0 and less than 2147483647");
     }
-- 
2.43.0


From 91ee71266206f5f18e6c3fa3fb0d44d95472028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:40 +0000
Subject: [PATCH 14/29] fix: a NaN read from a buffer is a number

---
 src/optionals/buffer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index c903573..1abcf8c 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -1,5 +1,7 @@
 #include "buffer.h"
 
+#include <math.h>
+
 typedef struct {
     uint8_t *bytes;
     int size;
@@ -434,6 +436,12 @@ static Value bufferWritefloat64LE(DictuVM *vm, int argCount, Value *args) {
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
 }
 
+// A NaN read from raw bytes may have any payload, including the bits used to
+// tag other values.
+static Value floatValue(double value) {
+    return NUMBER_VAL(value != value ? NAN : value);
+}
+
 static Value bufferReadfloat64LE(DictuVM *vm, int argCount, Value *args) {
     Buffer *buffer = AS_BUFFER(args[0]);
     if (argCount != 1) {
@@ -458,7 +466,7 @@ static Value bufferReadfloat64LE(DictuVM *vm, int argCount, Value *args) {
     memcpy(&value, ptr, sizeof(value));
     swap((uint8_t *)&value, sizeof(value), buffer->bigEndian);
 
-    return newResultSuccess(vm, NUMBER_VAL(value));
+    return newResultSuccess(vm, floatValue(value));
 }
 
 static Value bufferReadfloat32LE(DictuVM *vm, int argCount, Value *args) {
@@ -483,7 +491,7 @@ static Value bufferReadfloat32LE(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, "index must be smaller than buffer size - 4");
     memcpy(&value, ptr, sizeof(value));
     swap((uint8_t *)&value, sizeof(value), buffer->bigEndian);
-    return newResultSuccess(vm, NUMBER_VAL(value));
+    return newResultSuccess(vm, floatValue(value));
 }
 
 static Value bufferReadUint64LE(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 71bb84f63c4b993dc9d5c449cf0889c90e2aaafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 15/29] fix: a NaN converted from a string is a number

---
 src/vm/datatypes/strings.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index e58ca3e..639ec71 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -1,3 +1,5 @@
+#include <math.h>
+
 #include "strings.h"
 #include "../memory.h"
 
@@ -41,7 +43,9 @@ static Value toNumberString(DictuVM *vm, int argCount, Value *args) {
         return result;
     }
 
-    return newResultSuccess(vm, NUMBER_VAL(number));
+    // strtod() accepts a NaN with any payload, including the bits used to tag
+    // other values
+    return newResultSuccess(vm, NUMBER_VAL(number != number ? NAN : number));
 }
 
 static Value formatString(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 96638912a385391acfdee6582b29d185931dbe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 16/29] fix: lower(), upper() and title() convert the whole
 string

---
 src/vm/datatypes/strings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 639ec71..8189f84 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -398,7 +398,7 @@ static Value lowerString(DictuVM *vm, int argCount, Value *args) {
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         temp[i] = tolower(string->chars[i]);
     }
     temp[string->length] = '\0';
@@ -415,7 +415,7 @@ static Value upperString(DictuVM *vm, int argCount, Value *args) {
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         temp[i] = toupper(string->chars[i]);
     }
     temp[string->length] = '\0';
@@ -586,7 +586,7 @@ static Value titleString(DictuVM *vm, int argCount, Value *args) {
 
     bool convertNext=true;
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         if(string->chars[i]==' '){
             convertNext=true;
         }
-- 
2.43.0


From 6408952ab95d81bb5a533a7af352c0e601abb011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 17/29] fix: startsWith() and endsWith() compare whole strings

---
 src/vm/datatypes/strings.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 8189f84..4371ec3 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -434,10 +434,14 @@ static Value startsWithString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *string = AS_CSTRING(args[0]);
+    ObjString *string = AS_STRING(args[0]);
     ObjString *start = AS_STRING(args[1]);
 
-    return BOOL_VAL(strncmp(string, start->chars, start->length) == 0);
+    if (string->length < start->length) {
+        return FALSE_VAL;
+    }
+
+    return BOOL_VAL(memcmp(string->chars, start->chars, start->length) == 0);
 }
 
 static Value endsWithString(DictuVM *vm, int argCount, Value *args) {
@@ -458,7 +462,7 @@ static Value endsWithString(DictuVM *vm, int argCount, Value *args) {
         return FALSE_VAL;
     }
 
-    return BOOL_VAL(strcmp(string->chars + (string->length - suffix->length), suffix->chars) == 0);
+    return BOOL_VAL(memcmp(string->chars + (string->length - suffix->length), suffix->chars, suffix->length) == 0);
 }
 
 static Value leftStripString(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From b22751e03048cd7f400cb24ddbadae237fe98941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 18/29] fix: rightStrip() strips a string that is all
 whitespace

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 4371ec3..e8607da 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -501,7 +501,7 @@ static Value rightStripString(DictuVM *vm, int argCount, Value *args) {
     int length;
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (length = string->length - 1; length > 0; --length) {
+    for (length = string->length - 1; length >= 0; --length) {
         if (!isspace(string->chars[length])) {
             break;
         }
-- 
2.43.0


From 5f9c235a0959d6ff8a7241eeac3161bafc46b446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 19/29] fix: repeat() of zero or too many times stays inside
 its buffer

---
 src/vm/datatypes/strings.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index e8607da..8b77b12 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <math.h>
 
 #include "strings.h"
@@ -619,15 +620,21 @@ static Value repeatString(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString *string = AS_STRING(args[0]);
-    int count = AS_NUMBER(args[1]);
+    double times = AS_NUMBER(args[1]);
 
+    if (!(times >= 0 && times < INT_MAX && string->length * times < INT_MAX)) {
+        runtimeError(vm, "repeat() count argument is out of range");
+        return EMPTY_VAL;
+    }
+
+    int count = times;
     int tempLen = (string->length * count) + 1;
     char *temp = ALLOCATE(vm, char, tempLen);
 
-    strcpy(temp, string->chars);
-    while (--count > 0) {
-        strcat(temp, string->chars);
+    for (int i = 0; i < count; ++i) {
+        memcpy(temp + i * string->length, string->chars, string->length);
     }
+    temp[tempLen - 1] = '\0';
 
     return OBJ_VAL(takeString(vm, temp, tempLen - 1));
 }
-- 
2.43.0


From 2b3f8d6a67291d407de5d0e4262dabda39f178a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 20/29] fix: collapseSpaces() stays inside its buffer

---
 src/vm/datatypes/strings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 8b77b12..5668bbe 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -691,16 +691,16 @@ static Value collapseSpacesString(DictuVM *vm, int argCount, Value *args) {
 
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
-    strcpy(temp, string->chars);
+    memcpy(temp, string->chars, string->length + 1);
 
     int i, j;
-    for (i = j = 0; temp[i]; ++i) {
+    for (i = j = 0; i < string->length; ++i) {
         if (!isspace(temp[i]) || (i > 0 && !isspace(temp[i-1]))) {
             temp[j++] = temp[i];
         }
     }
 
-    temp[j+1] = '\0';
+    temp[j] = '\0';
 
     if (i != j) {
         temp = SHRINK_ARRAY(vm, temp, char, string->length + 1, j + 1);
-- 
2.43.0


From 3781f5881c2d01672f267994a1296fae83a3d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 21/29] fix: wrap() checks its argument and terminates its
 result

---
 src/vm/datatypes/strings.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 5668bbe..54dcd4c 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -715,15 +715,20 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[1])) {
+        runtimeError(vm, "wrap() length argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
-    
-    int len = AS_NUMBER(args[1]);
+
+    double len = AS_NUMBER(args[1]);
 
     int last = 0;
     int count = 0;
 
-    for (int cur = 0; string->chars[cur] != '\0'; cur++, count++) {
+    for (int cur = 0; cur < string->length; cur++, count++) {
         temp[cur] = string->chars[cur];
 
         if (isspace(temp[cur])) {
@@ -736,7 +741,9 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    return OBJ_VAL(takeString(vm, temp, strlen(temp)));
+    temp[string->length] = '\0';
+
+    return OBJ_VAL(takeString(vm, temp, string->length));
 }
 
 void declareStringMethods(DictuVM *vm) {
-- 
2.43.0


From ca4613ce4168f3fa2b7de331d9075e0ab711da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 22/29] fix: findLast() checks its argument

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 54dcd4c..efa8747 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -286,6 +286,11 @@ static Value findLastString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "Argument passed to findLast() must be a string");
+        return EMPTY_VAL;
+    }
+
     const char *str = AS_CSTRING(args[0]);
     const char *ss = AS_CSTRING(args[1]);
     const char *p = str;
-- 
2.43.0


From 5f56f1364e45a5eed4aec094d26d1a9f0b782301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 23/29] fix: count() of the empty string ends at the end of the
 string

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index efa8747..1a82c2b 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -553,6 +553,11 @@ static Value countString(DictuVM *vm, int argCount, Value *args) {
     int count = 0;
     while ((haystack = strstr(haystack, needle))) {
         count++;
+
+        if (*haystack == '\0') {
+            break;
+        }
+
         haystack++;
     }
 
-- 
2.43.0


From 81b3fdabcdd855d0d5858c19604d3d7357818a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 24/29] fix: replace() of the empty string terminates

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 1a82c2b..6803b23 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -345,6 +345,11 @@ static Value replaceString(DictuVM *vm, int argCount, Value *args) {
     ObjString *replace = AS_STRING(args[2]);
     char *string = AS_CSTRING(stringValue);
 
+    // The empty string occurs everywhere, there is nothing to replace
+    if (to_replace->length == 0) {
+        return stringValue;
+    }
+
     int count = 0;
     int len = to_replace->length;
     int replaceLen = replace->length;
-- 
2.43.0


From 14254472066e90d95406f612206a5118d6c42cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 25/29] fix: split() checks its count and does not move past a
 missing delimiter

---
 src/vm/datatypes/strings.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 6803b23..4f2712f 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -142,12 +142,12 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     int maxSplit = string->length + 1;
 
     if (argCount == 2) {
-        if (!AS_NUMBER(args[1])) {
+        if (!IS_NUMBER(args[2])) {
             runtimeError(vm, "Argument passed to split() must be a number");
             return EMPTY_VAL;
         }
 
-        if (AS_NUMBER(args[2]) >= 0) {
+        if (AS_NUMBER(args[2]) >= 0 && AS_NUMBER(args[2]) < maxSplit) {
             maxSplit = AS_NUMBER(args[2]);
         }
     }
@@ -195,12 +195,8 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
             writeValueArray(vm, &list->values, str);
             pop(vm);
 
-            tmp = token + delimiterLength;
+            tmp = token == NULL ? NULL : token + delimiterLength;
         } while (token != NULL && count < maxSplit);
-
-        if (token == NULL) {
-            tmp = NULL;
-        }
     }
 
     if (tmp != NULL && count >= maxSplit) {
-- 
2.43.0


From e8a7423780f585cad1d64546f08722b18d15297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:00 +0000
Subject: [PATCH 26/29] fix: string searches see the whole string

---
 src/vm/datatypes/strings.c | 72 +++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 4f2712f..3ce37bf 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -126,6 +126,18 @@ static Value formatString(DictuVM *vm, int argCount, Value *args) {
     return OBJ_VAL(takeString(vm, newStr, fullLength - 1));
 }
 
+// Strings may contain any character, including '\0', so strstr() can not be used.
+// Returns the first occurrence of needle that lies between start and end, or NULL.
+static char *findText(char *start, char *end, ObjString *needle) {
+    for (; end - start >= needle->length; start++) {
+        if (memcmp(start, needle->chars, needle->length) == 0) {
+            return start;
+        }
+    }
+
+    return NULL;
+}
+
 static Value splitString(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "split() takes 1 or 2 arguments (%d given)", argCount);
@@ -138,7 +150,7 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString *string = AS_STRING(args[0]);
-    char *delimiter = AS_CSTRING(args[1]);
+    ObjString *delimiter = AS_STRING(args[1]);
     int maxSplit = string->length + 1;
 
     if (argCount == 2) {
@@ -156,7 +168,8 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     char *tmpFree = tmp;
     memcpy(tmp, string->chars, string->length);
     tmp[string->length] = '\0';
-    int delimiterLength = strlen(delimiter);
+    char *tmpEnd = tmp + string->length;
+    int delimiterLength = delimiter->length;
     char *token;
 
     ObjList *list = newList(vm);
@@ -178,17 +191,16 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
 
         if (tokenIndex != string->length && count >= maxSplit) {
             tmp = (string->chars) + tokenIndex;
+            tmpEnd = string->chars + string->length;
         } else {
             tmp = NULL;
         }
     } else if (maxSplit > 0) {
         do {
             count++;
-            token = strstr(tmp, delimiter);
-            if (token)
-                *token = '\0';
+            token = findText(tmp, tmpEnd, delimiter);
 
-            Value str = OBJ_VAL(copyString(vm, tmp, strlen(tmp)));
+            Value str = OBJ_VAL(copyString(vm, tmp, (token ? token : tmpEnd) - tmp));
 
             // Push to stack to avoid GC
             push(vm, str);
@@ -200,7 +212,7 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     }
 
     if (tmp != NULL && count >= maxSplit) {
-        Value remainingStr = OBJ_VAL(copyString(vm, tmp, strlen(tmp)));
+        Value remainingStr = OBJ_VAL(copyString(vm, tmp, tmpEnd - tmp));
 
         // Push to stack to avoid GC
         push(vm, remainingStr);
@@ -225,10 +237,9 @@ static Value containsString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *string = AS_CSTRING(args[0]);
-    char *delimiter = AS_CSTRING(args[1]);
+    ObjString *string = AS_STRING(args[0]);
 
-    if (!strstr(string, delimiter)) {
+    if (!findText(string->chars, string->chars + string->length, AS_STRING(args[1]))) {
         return FALSE_VAL;
     }
 
@@ -257,20 +268,21 @@ static Value findString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *substr = AS_CSTRING(args[1]);
+    ObjString *substr = AS_STRING(args[1]);
     char *string = AS_CSTRING(args[0]);
+    char *end = string + AS_STRING(args[0])->length;
 
     int position = 0;
 
     for (int i = 0; i < index; ++i) {
-        char *result = strstr(string, substr);
+        char *result = findText(string, end, substr);
         if (!result) {
             position = -1;
             break;
         }
 
-        position += (result - string) + (i * strlen(substr));
-        string = result + strlen(substr);
+        position += (result - string) + (i * substr->length);
+        string = result + substr->length;
     }
 
     return NUMBER_VAL(position);
@@ -290,17 +302,12 @@ static Value findLastString(DictuVM *vm, int argCount, Value *args) {
     const char *str = AS_CSTRING(args[0]);
     const char *ss = AS_CSTRING(args[1]);
     const char *p = str;
-    int found = !*ss;
+    int found = AS_STRING(args[1])->length == 0;
 
     if (!found) {
-        while (*p) {
-            ++p;
-        }
+        p = str + AS_STRING(args[0])->length;
 
-        const char *q = ss;
-        while (*q) {
-            ++q;
-        }
+        const char *q = ss + AS_STRING(args[1])->length;
 
         while (!found && !(p-str < q-ss)) {
             const char *s = p;
@@ -349,17 +356,18 @@ static Value replaceString(DictuVM *vm, int argCount, Value *args) {
     int count = 0;
     int len = to_replace->length;
     int replaceLen = replace->length;
-    int stringLen = strlen(string) + 1;
+    int stringLen = AS_STRING(stringValue)->length + 1;
 
     // Make a copy of the string so we do not modify the original
     char *tmp = ALLOCATE(vm, char, stringLen + 1);
     char *tmpFree = tmp;
+    char *tmpEnd = tmp + stringLen - 1;
     memcpy(tmp, string, stringLen);
     tmp[stringLen] = '\0';
 
     // Count the occurrences of the needle so we can determine the size
     // of the string we need to allocate
-    while ((tmp = strstr(tmp, to_replace->chars)) != NULL) {
+    while ((tmp = findText(tmp, tmpEnd, to_replace)) != NULL) {
         count++;
         tmp += len;
     }
@@ -372,24 +380,22 @@ static Value replaceString(DictuVM *vm, int argCount, Value *args) {
         return stringValue;
     }
 
-    int length = strlen(tmp) - count * (len - replaceLen) + 1;
+    int length = stringLen - count * (len - replaceLen);
     char *pos;
     char *newStr = ALLOCATE(vm, char, length);
     int stringLength = 0;
 
     for (int i = 0; i < count; ++i) {
-        pos = strstr(tmp, to_replace->chars);
-        if (pos != NULL)
-            *pos = '\0';
+        pos = findText(tmp, tmpEnd, to_replace);
 
-        int tmpLength = strlen(tmp);
+        int tmpLength = pos - tmp;
         memcpy(newStr + stringLength, tmp, tmpLength);
         memcpy(newStr + stringLength + tmpLength, replace->chars, replaceLen);
         stringLength += tmpLength + replaceLen;
         tmp = pos + len;
     }
 
-    memcpy(newStr + stringLength, tmp, strlen(tmp));
+    memcpy(newStr + stringLength, tmp, tmpEnd - tmp);
     FREE_ARRAY(vm, char, tmpFree, stringLen + 1);
     newStr[length - 1] = '\0';
 
@@ -549,13 +555,13 @@ static Value countString(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *haystack = AS_CSTRING(args[0]);
-    char *needle = AS_CSTRING(args[1]);
+    char *end = haystack + AS_STRING(args[0])->length;
 
     int count = 0;
-    while ((haystack = strstr(haystack, needle))) {
+    while ((haystack = findText(haystack, end, AS_STRING(args[1])))) {
         count++;
 
-        if (*haystack == '\0') {
+        if (haystack == end) {
             break;
         }
 
-- 
2.43.0


From 6a6cb46e9e50671ec665a0bb6f6a4f371c242bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:01 +0000
Subject: [PATCH 27/29] fix: hmac() accepts an empty key

---
 src/optionals/hashlib/hmac.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/optionals/hashlib/hmac.c b/src/optionals/hashlib/hmac.c
index 529800e..2d89c85 100644
--- a/src/optionals/hashlib/hmac.c
+++ b/src/optionals/hashlib/hmac.c
@@ -54,8 +54,7 @@ int tc_hmac_set_key(TCHmacState_t ctx, const uint8_t *key,
 {
     /* Input sanity check */
     if (ctx == (TCHmacState_t) 0 ||
-        key == (const uint8_t *) 0 ||
-        key_size == 0) {
+        key == (const uint8_t *) 0) {
         return TC_CRYPTO_FAIL;
     }
 
-- 
2.43.0


From 855ee968ac530580d6fe22f9ae848b039fee8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:43 +0000
Subject: [PATCH 28/29] fix: constants are folded only if they are both
 operands

---
 src/vm/compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 08d0cab..5f45e85 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -496,6 +496,7 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         uint8_t constant = chunk->code[chunk->count - 3];                      \
         if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
         if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
+        if (constant + 1 != index) return false;                               \
         chunk->constants.values[constant] = NUMBER_VAL(                        \
             AS_NUMBER(chunk->constants.values[constant]) operator              \
             AS_NUMBER(chunk->constants.values[index])                          \
@@ -512,6 +513,7 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         uint8_t constant = chunk->code[chunk->count - 3];                      \
         if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
         if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
+        if (constant + 1 != index) return false;                               \
         chunk->constants.values[constant] = NUMBER_VAL(                        \
             func(                                                              \
                 AS_NUMBER(chunk->constants.values[constant]),                  \
-- 
2.43.0


From b34bb3f260bfcfc06ac1937c99ef0d5867bc48df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:43 +0000
Subject: [PATCH 29/29] fix: powers are computed in double precision

---
 src/vm/compiler.c | 2 +-
 src/vm/vm.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 5f45e85..72bd2fa 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -552,7 +552,7 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         }
 
         case TOKEN_STAR_STAR: {
-            FOLD_FUNC(powf);
+            FOLD_FUNC(pow);
             return false;
         }
 
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 261e57d..712bcd3 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1575,7 +1575,7 @@ static DictuInterpretResult run(DictuVM *vm) {
             DISPATCH();
 
         CASE_CODE(POW): {
-            BINARY_OP_FUNCTION(NUMBER_VAL, **, powf, double);
+            BINARY_OP_FUNCTION(NUMBER_VAL, **, pow, double);
             DISPATCH();
         }
 
-- 
2.43.0

