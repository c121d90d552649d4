From b06fcc36c8ab24609fe8ab258f599d2706057872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 01/12] fix: keep sibling links intact when Move detaches a
 middle or last element

zj_Move cleared the node's Prev before using it to update its neighbour's
Prev and its father's End, so the list was corrupted: later deletes lost
elements and later appends crashed.
---
 zzzjson.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 5134b61..5df031b 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2176,14 +2176,14 @@ static inline bool zj_Move(zj_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
+    v->N->Prev = 0;
+    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From 4db4d0aa52727194d6fa30699d816202c44dfcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 02/12] fix: Set must take the last child of the copy, not of
 the source

Appending to the destination afterwards linked the new element into the
source value's tree.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 5df031b..34a542a 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2628,7 +2628,7 @@ static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == zj_JSONTypeArray || v->N->Type == zj_JSONTypeObject) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct zj_node *next = v->N->Value.Node;
     while (zj_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From b237161de3d48a9f42e25137d41eb62deaddb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 03/12] fix: accept \uE000-\uFFFF escapes in SetStr and SetKey

The upper bound of the low surrogate range had one F too many, so the
setters rejected strings that Parse accepts.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 34a542a..e2e0edf 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1237,7 +1237,7 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
         if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return false;
           if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (zj_LIKELY(zj_likelyConsume('\\', s, &index) &&
-- 
2.43.0


From 558b0d3fa409ddd5e5c46f3eaedd0e28e3a98d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 04/12] fix: do not cache arena memory in a global in the *Len
 setters

zj_stringCache kept pointing into the first allocator that used it and was
written to after that allocator had been released; it was also shared by
all threads.
---
 zzzjson.h | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index e2e0edf..93c1fa3 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -555,8 +555,6 @@ struct zj_string {
   zj_Allocator *A;
 };
 
-static struct zj_string *zj_stringCache = 0;
-
 // 新建一个字符串
 static inline struct zj_string *zj_newString(zj_Allocator *alloc,
                                              zj_Size init_size) {
@@ -1271,15 +1269,11 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
 // 较为省事的一种实现方法，后面会实现更高效的算法
 static inline bool zj_checkStrLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  struct zj_string *str = zj_newString(alloc, len + 1);
+  zj_appendStr(str, s, len);
+  zj_appendEnd(str);
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkStr(zj_str(zj_stringCache), &avail_len) == false)) {
+  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
@@ -1388,15 +1382,11 @@ static inline bool zj_checkNum(const char *s, zj_Size *len) {
 }
 static inline bool zj_checkNumLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  struct zj_string *str = zj_newString(alloc, len + 1);
+  zj_appendStr(str, s, len);
+  zj_appendEnd(str);
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkNum(zj_str(zj_stringCache), &avail_len) == false)) {
+  if (zj_UNLIKELY(zj_checkNum(zj_str(str), &avail_len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
-- 
2.43.0


From eb2593a4195ff3f6eebbc78ebac10816b8b97d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 05/12] fix: numeric getters convert exactly the number's text

Numbers of 128 characters or more overflowed a stack buffer, and the
long, long long and double conversions read the unterminated source text
instead of the terminated copy.
---
 zzzjson.h | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 93c1fa3..0472290 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -369,25 +369,48 @@ static inline zj_Size zj_strLen(const char *str) {
   return (zj_Size)strlen(str);
 }
 
-static inline int zj_strToInt(const char *str, zj_Size len) {
-  char s[128] = {0};
+// 把长度为len的数字拷贝成以0结束的字符串，buff放不下时由zj_new分配
+static inline char *zj_numToCStr(const char *str, zj_Size len, char *buff,
+                                 zj_Size buff_size) {
+  char *s = buff;
+  if (zj_UNLIKELY(len >= buff_size))
+    s = (char *)zj_new(len + 1);
   memcpy(s, str, len);
-  return atoi(s);
+  s[len] = 0;
+  return s;
+}
+
+static inline int zj_strToInt(const char *str, zj_Size len) {
+  char buff[128];
+  char *s = zj_numToCStr(str, len, buff, sizeof(buff));
+  int ret = atoi(s);
+  if (zj_UNLIKELY(s != buff))
+    zj_free((void *)s);
+  return ret;
 }
 static inline long zj_strToLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atol(str);
+  char buff[128];
+  char *s = zj_numToCStr(str, len, buff, sizeof(buff));
+  long ret = atol(s);
+  if (zj_UNLIKELY(s != buff))
+    zj_free((void *)s);
+  return ret;
 }
 static inline long long zj_strToLongLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoll(str);
+  char buff[128];
+  char *s = zj_numToCStr(str, len, buff, sizeof(buff));
+  long long ret = atoll(s);
+  if (zj_UNLIKELY(s != buff))
+    zj_free((void *)s);
+  return ret;
 }
 static inline double zj_strToDouble(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atof(str);
+  char buff[128];
+  char *s = zj_numToCStr(str, len, buff, sizeof(buff));
+  double ret = atof(s);
+  if (zj_UNLIKELY(s != buff))
+    zj_free((void *)s);
+  return ret;
 }
 
 static inline zj_Size zj_intToStr(int n, char *buff) {
-- 
2.43.0


From f0edd07534a8eaad6159d48cc9dbf9698cd78ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 06/12] fix: do not read past the terminator when matching
 true, false and null

The literals were compared with one 4-byte load, which reads beyond the
end of a text such as "f".
---
 zzzjson.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 0472290..d3d7f09 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -853,7 +853,8 @@ static inline bool zj_unLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)("alse")) == *((uint32_t *)(s + *index)))) {
+  const char *p = s + *index;
+  if (zj_LIKELY(p[0] == 'a' && p[1] == 'l' && p[2] == 's' && p[3] == 'e')) {
     *index += 4;
     return true;
   }
@@ -862,7 +863,8 @@ static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
 
 // 消费True
 static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strTrue) == *((uint32_t *)(s + *index - 1)))) {
+  const char *p = s + *index - 1;
+  if (zj_LIKELY(p[0] == 't' && p[1] == 'r' && p[2] == 'u' && p[3] == 'e')) {
     *index += 3;
     return true;
   }
@@ -871,7 +873,8 @@ static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
 
 // 消费Null
 static inline bool zj_consumeNull(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strNull) == *((uint32_t *)(s + *index - 1)))) {
+  const char *p = s + *index - 1;
+  if (zj_LIKELY(p[0] == 'n' && p[1] == 'u' && p[2] == 'l' && p[3] == 'l')) {
     *index += 3;
     return true;
   }
-- 
2.43.0


From e14fd11af49a089bc067db86329ea0016fb08c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 07/12] fix: SetDouble and SetNum reject NaN and infinities

They stored "nan" or "inf", which Stringify then wrote out as invalid
JSON.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index d3d7f09..60f00b6 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2322,6 +2322,9 @@ static inline bool zj_SetNum(zj_Value *v, const double d) {
 static inline bool zj_SetDouble(zj_Value *v, const double d) {
   char *num = zj_allocatorAlloc(v->A, 32);
   zj_Size len = zj_doubleToStr(d, num);
+  // NaN 和 Inf 不是合法的JSON数字
+  if (zj_UNLIKELY(zj_checkNum(num, &len) == false))
+    return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
     v->N->Key = 0;
-- 
2.43.0


From b0eff643293663df36abc46450c20d36fd4db85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 08/12] fix: make the C++ Allocator non-copyable

A copy shared the original's memory and both destructors freed it.
---
 zzzjson.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 60f00b6..70a7f41 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -475,6 +475,11 @@ struct zj_aNode {
 // 内存分配器为由内存分配器节点组成的链表，Root为根节点，End总是指向最后一个节点
 struct zj_Allocator {
 #if zj_CPLUSPLUS == 1
+private:
+  // 不允许拷贝，否则同一块内存会被释放两次
+  zj_Allocator(const zj_Allocator &);
+  zj_Allocator &operator=(const zj_Allocator &);
+
 public:
   zj_Allocator() {
     void *ptr = zj_new(sizeof(struct zj_aNode) + zj_AllocatorInitMemSize);
-- 
2.43.0


From 6152b2cf12ea3ba254bf451b94b95390ce60e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 09/12] fix: zzzjson.hpp SetNumStrLenFast forwards to
 SetNumStrLenFast

---
 zzzjson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.hpp b/zzzjson.hpp
index 147eda8..103b96d 100644
--- a/zzzjson.hpp
+++ b/zzzjson.hpp
@@ -91,7 +91,7 @@ public:
   }
   bool SetNumStrFast(const char *num) { return zj::SetNumStrFast(val, num); }
   bool SetNumStrLenFast(const char *num, SIZE len) {
-    return zj::SetNumStrLen(val, num, len);
+    return zj::SetNumStrLenFast(val, num, len);
   }
   bool SetNum(const double d) { return zj::SetNum(val, d); }
   bool SetDouble(const double d) { return zj::SetDouble(val, d); }
-- 
2.43.0


From a2e133b7e1a44c65dbefb4345630efe69bfc1966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 10/12] fix: make the Go binding compile

It called zj_AllocatorRelease and converted to zj_SIZE, neither of which
exists.
---
 zzzjson.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index e551554..dad9627 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -54,7 +54,7 @@ func NewAllocator() *Allocator {
 ReleaseAllocator free an allocator
 */
 func (allocator *Allocator) ReleaseAllocator() {
-	C.zj_AllocatorRelease(allocator.A)
+	C.zj_ReleaseAllocator(allocator.A)
 }
 
 /*
@@ -440,7 +440,7 @@ func (v *Value) ObjDel(key string) bool {
 ArrayDel delete an value of array where index == index
 */
 func (v *Value) ArrayDel(index JSONSize) bool {
-	ret := C.zj_ArrayDel(v.V, C.zj_SIZE(index))
+	ret := C.zj_ArrayDel(v.V, C.zj_Size(index))
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From 74e57a8fdf34fd9173c5515222e69b3ac03d6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 11/12] fix: free the C strings the Go binding makes

Every call that passes text leaked a C.CString copy, which no allocator
owns. Use the copying setters and free the temporary string.
---
 zzzjson.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index dad9627..3aa6112 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -9,6 +9,8 @@ import (
 	"C"
 )
 
+import "unsafe"
+
 /*
 JSONSize Size for zzzJSON
 */
@@ -77,7 +79,9 @@ func NewValue(allocator *Allocator) *Value {
 Parse Parse JSON text to value
 */
 func (v *Value) Parse(s string) bool {
-	ret := C.zj_ParseFast(v.V, C.CString(s))
+	cStr := C.CString(s)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_Parse(v.V, cStr)
 	if ret != true {
 		return false
 	}
@@ -198,7 +202,9 @@ func (v *Value) Type() *JSONType {
 ObjGet get value of object where key == key
 */
 func (v *Value) ObjGet(key string) *Value {
-	cVal := C.zj_ObjGet(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	cVal := C.zj_ObjGet(v.V, cStr)
 	if cVal == nil {
 		return nil
 	}
@@ -294,7 +300,9 @@ func (v *Value) SetBool(b bool) {
 SetNumStr set number to value
 */
 func (v *Value) SetNumStr(num string) bool {
-	ret := C.zj_SetNumStrFast(v.V, C.CString(num))
+	cStr := C.CString(num)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetNumStr(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -305,7 +313,9 @@ func (v *Value) SetNumStr(num string) bool {
 SetStr set string to value
 */
 func (v *Value) SetStr(str string) bool {
-	ret := C.zj_SetStrFast(v.V, C.CString(str))
+	cStr := C.CString(str)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetStr(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -316,7 +326,9 @@ func (v *Value) SetStr(str string) bool {
 SetStrEscape set string to value and escape, string can contain \n\r...
 */
 func (v *Value) SetStrEscape(str string) bool {
-	ret := C.zj_SetStrEscape(v.V, C.CString(str))
+	cStr := C.CString(str)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetStrEscape(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -327,7 +339,9 @@ func (v *Value) SetStrEscape(str string) bool {
 SetKey set key to value
 */
 func (v *Value) SetKey(key string) bool {
-	ret := C.zj_SetKeyFast(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetKey(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -338,7 +352,9 @@ func (v *Value) SetKey(key string) bool {
 SetKeyEscape set key to value and escape, string can contain \n\r...
 */
 func (v *Value) SetKeyEscape(key string) bool {
-	ret := C.zj_SetKeyEscape(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetKeyEscape(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -429,7 +445,9 @@ func (v *Value) ArrayAddFast(vv *Value) bool {
 ObjDel delete an value of object where key == key
 */
 func (v *Value) ObjDel(key string) bool {
-	ret := C.zj_ObjDel(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_ObjDel(v.V, cStr)
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From 2bf1d7f98819e39a19a89f07634dc38ace7a9ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:35 +0000
Subject: [PATCH 12/12] fix: Set, ObjAdd and ArrayAdd copy into the
 destination's allocator

---
 zzzjson.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 70a7f41..9bc7498 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2641,8 +2641,8 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
 
 // 函数说明详见《API》
 static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = cp->N;
@@ -2699,8 +2699,8 @@ static inline bool zj_ObjAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Father = v->N;
   if (zj_UNLIKELY(v->N->Value.Node == 0)) {
@@ -2746,8 +2746,8 @@ static inline bool zj_ArrayAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Key = 0;
   cp->N->Father = v->N;
-- 
2.43.0

