From d96529689c6c65854ab512a14a22edc91c1c4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 01/57] fix: sblist_insert: refuse positions past the end of
 the list

pos > count made the memmove size negative and wrote outside the list.
---
 src/sblist/sblist_insert.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sblist/sblist_insert.c b/src/sblist/sblist_insert.c
index 12fa07a..1a38d26 100644
--- a/src/sblist/sblist_insert.c
+++ b/src/sblist/sblist_insert.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 int sblist_insert(sblist* l, void* item, size_t pos) {
+	if(pos > sblist_getsize(l)) return 0;
 	if(!sblist_grow_if_needed(l)) return 0;
 	memmove(sblist_item_from_index(l, pos + 1), sblist_item_from_index(l, pos), (sblist_getsize(l) - pos) * l->itemsize);
 	l->count++;
-- 
2.43.0


From edf2f17a74290bad8d23ccb827a3fd3468301f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 02/57] fix: sblist: a growth block of 0 must still make room

Lists from sblist_new_from_data, lists with sblist_set_blockitems(l, 0) and
lists of items bigger than a page grew by 0 items, so the next add wrote
past the allocation.
---
 src/sblist/sblist.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sblist/sblist.c b/src/sblist/sblist.c
index 4e1860f..da424fb 100644
--- a/src/sblist/sblist.c
+++ b/src/sblist/sblist.c
@@ -58,9 +58,13 @@ int sblist_set(sblist* l, void* item, size_t pos) {
 int sblist_grow_if_needed(sblist* l) {
 	char* temp;
 	if(l->count == l->capa) {
-		temp = realloc(l->items, (l->capa + l->blockitems) * l->itemsize);
+		size_t grow = l->blockitems;
+		/* 0 means one page worth of items, but at least one item */
+		if(!grow) grow = MY_PAGE_SIZE / l->itemsize;
+		if(!grow) grow = 1;
+		temp = realloc(l->items, (l->capa + grow) * l->itemsize);
 		if(!temp) return 0;
-		l->capa += l->blockitems;
+		l->capa += grow;
 		l->items = temp;
 	}
 	return 1;
-- 
2.43.0


From 3c05f77c7e7dd41dd7f7a2c3a1641ae9dadd559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 03/57] fix: sblist_free_values: free the stored pointers, not
 the slots

---
 src/sblist/sblist_free_values.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sblist/sblist_free_values.c b/src/sblist/sblist_free_values.c
index 6b07e37..d8592fc 100644
--- a/src/sblist/sblist_free_values.c
+++ b/src/sblist/sblist_free_values.c
@@ -4,5 +4,5 @@
 void sblist_free_values(sblist *l) {
 	size_t i;
 	for(i=0; i<sblist_getsize(l); i++)
-		free(sblist_get(l, i));
+		free(*(void**)sblist_get(l, i));
 }
-- 
2.43.0


From 5200fa71ff01993739e1fa714f2c9a9dec81957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:06 +0000
Subject: [PATCH 04/57] fix: tlist_get: return NULL for an index outside the
 list

The item header size was added to the null node, and indices of 2^32 and
more wrapped around to existing items.
---
 src/tlist/tlist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 1ac4c09..379c723 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -126,6 +126,7 @@ size_t tlist_getsize(struct tlist* t) {
 }
 
 void* tlist_get(struct tlist* t, size_t idx) {
+	if(idx >= cnt (t->root)) return 0;
 	return data(getitem(t->root, idx, 0));
 }
 
-- 
2.43.0


From 7c39bec1f1b2ba2f414b2aa037505bc364ceb872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:06 +0000
Subject: [PATCH 05/57] fix: tlist deep variants: free the stored pointer, not
 the slot

---
 src/tlist/tlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 379c723..a24e3a2 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -145,7 +145,7 @@ int tlist_append(struct tlist* t, void *value) {
 static int tlist_delete_impl(struct tlist *t, size_t idx, int deep) {
 	if(idx >= cnt (t->root)) return 0;
 	pitem it = getitem(t->root, idx, 0);
-	if(deep) free(data(it));
+	if(deep) free(*(void**)data(it));
 	remove(&t->root, idx, 0);
 	free(it);
 	return 1;
-- 
2.43.0


From f6f7e85ea87f37c733832904c3e760e9c47b0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:06 +0000
Subject: [PATCH 06/57] fix: bmap_delete: evaluate the index expression once

bmap_delete(m, bmap_find(m, k)) deleted the key, then looked it up again to
delete the value and got -1.
---
 include/bmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index 86da54a..a4c73d3 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -141,9 +141,9 @@ static inline void* bmap_new(bmap_compare_func fn) {
 	)
 
 #define bmap_delete(X, POS) ( \
-	(X)->tmp.ss = POS, \
-	tglist_delete(&(X)->keys, POS), \
-	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, POS) \
+	(X)->tmp.ss = (POS), \
+	tglist_delete(&(X)->keys, (X)->tmp.ss), \
+	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, (X)->tmp.ss) \
 	)
 
 static ssize_t bmap_find_impl(void* bm, const void* key, size_t keysize) {
-- 
2.43.0


From 6f0cca3a8d4f6d6d13544099acec235c0d2a847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 07/57] fix: hashlist_next: skip buckets whose list is empty

The iteration ended at the first bucket from which all values had been
removed, losing everything in later buckets.
---
 src/hashlist/hashlist_iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist_iterator.c b/src/hashlist/hashlist_iterator.c
index 0edfa5f..5e28c01 100644
--- a/src/hashlist/hashlist_iterator.c
+++ b/src/hashlist/hashlist_iterator.c
@@ -19,7 +19,7 @@ void hashlist_iterator_init(hashlist_iterator* iter) {
 void* hashlist_next(hashlist* h, hashlist_iterator* iter) {
 	if(iter->bucket_iter.pos >= (ssize_t) h->bucketcount) return NULL;
 	iter->pos++;
-	if(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
+	while(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
 		iter->pos = 0;
 		if(!hashlist_bucket_next(h, &iter->bucket_iter)) return NULL;
 	}
-- 
2.43.0


From 1ae3adb1eca576638b3de3de029a914109869560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 08/57] fix: hashlist_add: return -1 as documented when memory
 runs out

---
 src/hashlist/hashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist.c b/src/hashlist/hashlist.c
index 1129353..990bc8c 100644
--- a/src/hashlist/hashlist.c
+++ b/src/hashlist/hashlist.c
@@ -21,7 +21,7 @@ int hashlist_add(hashlist* h, uint32_t hash, void* value) {
 		h->buckets[dstbkt] = sblist_new(h->datasize, 8);
 		if(!h->buckets[dstbkt]) return -1;
 	}
-	return !sblist_add(h->buckets[dstbkt], value);
+	return sblist_add(h->buckets[dstbkt], value) ? 0 : -1;
 }
 
 /* return a sblist containing all values matching the hash, or NULL if not found */
-- 
2.43.0


From 3ef900e2876eb3bce20ec683e1414b0529e4f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 09/57] fix: bmap_insert: return -1 when the value cannot be
 inserted

The comma operator applied to the whole expression, so the index of the
rolled-back key was returned instead of the result of bmap_insert_nocheck.
---
 include/bmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bmap.h b/include/bmap.h
index a4c73d3..0e16311 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -137,7 +137,7 @@ static inline void* bmap_new(bmap_compare_func fn) {
 #define bmap_insert(X, KEY, VAL) ( \
 		( (X)->tmp.ss = bmap_find(X, KEY) ) \
 		== (ssize_t) -1 ? bmap_insert_nocheck(X, KEY, VAL) : \
-		bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss \
+		( bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss ) \
 	)
 
 #define bmap_delete(X, POS) ( \
-- 
2.43.0


From 989d7a0c0bb57f2cbc7189325f0a922de67edcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 10/57] fix: stringptr_here: a position past the end never
 matches

haystack->size - bufpos wrapped around and memory past the string was read.
---
 src/stringptr/stringptr_here.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_here.c b/src/stringptr/stringptr_here.c
index 557bc7f..007adf3 100644
--- a/src/stringptr/stringptr_here.c
+++ b/src/stringptr/stringptr_here.c
@@ -2,7 +2,7 @@
 #include <string.h>
 
 int stringptr_here(stringptr* haystack, size_t bufpos, stringptr* needle) {
-	if(needle->size <= haystack->size - bufpos) {
+	if(bufpos <= haystack->size && needle->size <= haystack->size - bufpos) {
 		if(!memcmp(needle->ptr, haystack->ptr + bufpos, needle->size))
 			return 1;
 	}
-- 
2.43.0


From 540c9b717b150df7117413a685b5487fac083965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 11/57] fix: stringptr_splits: an empty delimiter matches
 nothing

It matched everywhere without advancing, so splitting (and replacing) by an
empty string added empty items until memory ran out.
---
 src/stringptrlist/stringptr_splits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 024bb1b..04c6ccf 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -12,11 +12,11 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	if(!result) return NULL;
 	i = 0;
 	while(i<=buf->size) {
-		if(i == buf->size || stringptr_here(buf, i, delim)) {
+		if(i == buf->size || (delim->size && stringptr_here(buf, i, delim))) {
 			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
-			i += delim->size;
+			i += delim->size ? delim->size : 1;
 		} else
 			i++;
 	}
-- 
2.43.0


From ef8f7e9492b7c272c3940b3469c752b7116b15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 12/57] fix: stringptr_replace: free the items of the temporary
 list

Only the list header was freed, and nothing at all on the error path.
---
 src/stringptrlist/stringptr_replace.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_replace.c b/src/stringptrlist/stringptr_replace.c
index e72bc08..6cf48ea 100644
--- a/src/stringptrlist/stringptr_replace.c
+++ b/src/stringptrlist/stringptr_replace.c
@@ -7,7 +7,10 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 	size_t i, w;
 	if((l = stringptr_splits(buf, what))) {
 		result = stringptr_new(buf->size - ((stringptrlist_getsize(l) - 1) * what->size) + ((stringptrlist_getsize(l) - 1) * whit->size));
-		if(!result) return NULL;
+		if(!result) {
+			stringptrlist_free(l);
+			return NULL;
+		}
 		w = 0;
 		for(i = 0; i < stringptrlist_getsize(l); i++) {
 			if((temp = stringptrlist_get(l, i))) {
@@ -21,7 +24,7 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 				}
 			}
 		}
-		free(l);
+		stringptrlist_free(l);
 	}
 	return result;
 }
-- 
2.43.0


From 94f053c32a4c2873d61f646d2c3de134e15f840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 13/57] fix: stringptr_copy: return NULL when memory runs out

---
 src/stringptr/stringptr_copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringptr/stringptr_copy.c b/src/stringptr/stringptr_copy.c
index c019525..133d80c 100644
--- a/src/stringptr/stringptr_copy.c
+++ b/src/stringptr/stringptr_copy.c
@@ -4,6 +4,7 @@
 stringptr* stringptr_copy(stringptr* s) {
 	if(!s) return NULL;
 	stringptr* result = stringptr_new(s->size);
+	if(!result) return NULL;
 	memcpy(result->ptr, s->ptr, s->size);
 	return result;
 }
-- 
2.43.0


From fadfb73c395314a6f7f02bd1afcf080e72ad1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 14/57] fix: stringptrlist_add_strdup: free the copy if it
 cannot be added

---
 src/stringptrlist/stringptrlist_add_strdup.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptrlist_add_strdup.c b/src/stringptrlist/stringptrlist_add_strdup.c
index 3fc57a7..9d358ec 100644
--- a/src/stringptrlist/stringptrlist_add_strdup.c
+++ b/src/stringptrlist/stringptrlist_add_strdup.c
@@ -3,5 +3,9 @@
 int stringptrlist_add_strdup(stringptrlist* l, stringptr* s) {
 	char* nu = stringptr_strdup(s);
 	if(!nu) return 0;
-	return stringptrlist_add(l, nu, stringptr_getsize(s));
+	if(!stringptrlist_add(l, nu, stringptr_getsize(s))) {
+		free(nu);
+		return 0;
+	}
+	return 1;
 }
-- 
2.43.0


From e46dae550c9a59ac18e18bce2a8cdc29fb3632da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 15/57] fix: stringptr_split*: report running out of memory

Pieces that could not be added were silently dropped from the result.
---
 src/stringptrlist/stringptr_splitc.c | 5 ++++-
 src/stringptrlist/stringptr_splits.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index 1d1f2b8..60b413a 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -12,7 +12,10 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 
 	for(i=0;i<=buf->size;i++) {
 		if(i == buf->size || buf->ptr[i] == delim) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i+1;
 			buf->ptr[i] = 0;
 		}
diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 04c6ccf..642125c 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -13,7 +13,10 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	i = 0;
 	while(i<=buf->size) {
 		if(i == buf->size || (delim->size && stringptr_here(buf, i, delim))) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
 			i += delim->size ? delim->size : 1;
-- 
2.43.0


From fc35429175750be0f45eec48c9f9ed3ea1f551b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 16/57] fix: strdup_n: copy len bytes and terminate the copy

The byte past the given length was read and copied in place of the
terminator.
---
 src/strlib/strdup_n.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strdup_n.c b/src/strlib/strdup_n.c
index 5aa6e96..058f84a 100644
--- a/src/strlib/strdup_n.c
+++ b/src/strlib/strdup_n.c
@@ -5,8 +5,10 @@
 char* strdup_n(char* str, size_t len) {
 	if (!str || !len) return NULL;
 	char * res;
-	if((res = malloc(len + 1)))
-		memcpy(res, str, len + 1);
+	if((res = malloc(len + 1))) {
+		memcpy(res, str, len);
+		res[len] = 0;
+	}
 	return res;
 }
 
-- 
2.43.0


From b236cdb0c038ba0cf9e9f46b32a6e29d7db31dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 17/57] fix: stringptr_rchr: find bytes above 127 however they
 are passed

Like strrchr, compare as unsigned char; a needle of 0x80..0xff never matched
where char is signed.
---
 src/stringptr/stringptr_rchr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_rchr.c b/src/stringptr/stringptr_rchr.c
index c55fb1a..89cb2cb 100644
--- a/src/stringptr/stringptr_rchr.c
+++ b/src/stringptr/stringptr_rchr.c
@@ -5,7 +5,7 @@ char* stringptr_rchr(stringptr* haystack, int needle) {
 	ssize_t i;
 	if(!haystack || !haystack->size) return NULL;
 	for(i = haystack->size - 1; i >= 0; i--) {
-		if(haystack->ptr[i] == needle)
+		if((unsigned char) haystack->ptr[i] == (unsigned char) needle)
 			return haystack->ptr + i;
 	}
 	return NULL;
-- 
2.43.0


From d4a6b7edd0daaf0052bd3ab83bf5089251d5a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 18/57] fix: stringptr_splitc: split at bytes above 127 however
 they are passed

---
 src/stringptrlist/stringptr_splitc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index 60b413a..a843663 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -11,7 +11,7 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 	if(!result) return NULL;
 
 	for(i=0;i<=buf->size;i++) {
-		if(i == buf->size || buf->ptr[i] == delim) {
+		if(i == buf->size || (unsigned char) buf->ptr[i] == (unsigned char) delim) {
 			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
 				stringptrlist_free(result);
 				return NULL;
-- 
2.43.0


From 77d25a30f627ceb9f770e2287916cfd404989d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 19/57] fix: fileparser_getnextlinelength: keep the position,
 also when the last line fills the buffer

An unterminated last line of a multiple of 1024 bytes gave -1, and any
failure left the position after the part looked at.
---
 src/fileparser/fileparser_getnextlinelength.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fileparser/fileparser_getnextlinelength.c b/src/fileparser/fileparser_getnextlinelength.c
index 497316a..47d3aad 100644
--- a/src/fileparser/fileparser_getnextlinelength.c
+++ b/src/fileparser/fileparser_getnextlinelength.c
@@ -7,12 +7,13 @@ ssize_t fileparser_getnextlinelength(fileparser* parser) {
 	while((ret = fileparser_readline(parser)) == -3) {
 		res += sizeof(parser->buf);
 		parser->fpos += sizeof(parser->buf);
-		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) break;
 	}
-	if(ret != 0) return -1;
-	res += parser->len;
+	if(ret == 0) res += parser->len;
 	parser->fpos = store_fpos;
 	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+	/* the last line may end at the end of the file and of the buffer */
+	if(ret != 0 && (ret != -2 || !res)) return -1;
 	return res;
 }
 
-- 
2.43.0


From 555e7c0251c835678ba6d62c1020f08e3a07cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 20/57] fix: fileparser: a short read is not the end of the
 file

---
 src/fileparser/fileparser_readline_userbuf.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fileparser/fileparser_readline_userbuf.c b/src/fileparser/fileparser_readline_userbuf.c
index 9596076..604295c 100644
--- a/src/fileparser/fileparser_readline_userbuf.c
+++ b/src/fileparser/fileparser_readline_userbuf.c
@@ -3,11 +3,20 @@
 int fileparser_readline_userbuf(fileparser* parser, char* buf, size_t bufsize) {
 	size_t i;
 	size_t found = 0;
+	size_t got = 0;
 	ssize_t ret;
 	if(!parser || !parser->file) return -1;
-	if(!(ret = read(parser->file, buf, bufsize))) return -2;
-	if(ret == -1) return errno;
-	parser->len = (size_t) ret;
+	/* a short read is not the end of the file */
+	while(got < bufsize && (ret = read(parser->file, buf + got, bufsize - got))) {
+		if(ret == -1) {
+			ret = errno;
+			if(got) lseek(parser->file, (off_t) parser->fpos, SEEK_SET);
+			return ret;
+		}
+		got += (size_t) ret;
+	}
+	if(!got) return -2;
+	parser->len = got;
 	for(i = 0; i < parser->len; i++) {
 		if(buf[i] == '\n') {
 			found = 1;
-- 
2.43.0


From fa2df4b76b48b114abd947c42c85c44ebc20b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 21/57] fix: read_stdin_line: chomp only a newline

---
 src/stringptr/read_stdin_line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/read_stdin_line.c b/src/stringptr/read_stdin_line.c
index 0fb4baa..011e138 100644
--- a/src/stringptr/read_stdin_line.c
+++ b/src/stringptr/read_stdin_line.c
@@ -9,7 +9,7 @@ stringptr read_stdin_line(char* buf, size_t bufsize, int chomp) {
 	if((fgets_result = fgets(buf, bufsize, stdin))) {
 		stringptr line;
 		stringptr_fromchar(fgets_result, &line);
-		if(chomp) 
+		if(chomp && line.size && line.ptr[line.size - 1] == '\n')
 			stringptr_shiftleft(&line, 1); // remove trailing \n
 		return line;
 	}
-- 
2.43.0


From 2efd9bbb3cb2e360d9970dc0539d4f3c2e0c8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 22/57] fix: stringptr_fromfile: stop at the end of a file that
 got shorter

---
 src/stringptr/stringptr_fromfile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stringptr/stringptr_fromfile.c b/src/stringptr/stringptr_fromfile.c
index 32a7f4a..c7bd39c 100644
--- a/src/stringptr/stringptr_fromfile.c
+++ b/src/stringptr/stringptr_fromfile.c
@@ -29,6 +29,12 @@ stringptr* stringptr_fromfile(char* filename) {
 			buf = NULL;
 			goto FEXIT;
 		}
+		if(!bread) {
+			/* the file got shorter in the meantime */
+			buf->size = bufpos;
+			buf->ptr[bufpos] = 0;
+			break;
+		}
 		bufpos += bread;
 	}
 	FEXIT:
-- 
2.43.0


From 998a5025c96e2197b36eeaa0618b3f345f64690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 23/57] fix: stringptrlist_fromfile: read past empty lines,
 report errors

Reading stopped at the first empty line, and success was reported even
if a line was too long or a read failed.
---
 src/stringptrlist/stringptrlist_fromfile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stringptrlist/stringptrlist_fromfile.c b/src/stringptrlist/stringptrlist_fromfile.c
index 9614b87..d3fddc5 100644
--- a/src/stringptrlist/stringptrlist_fromfile.c
+++ b/src/stringptrlist/stringptrlist_fromfile.c
@@ -4,12 +4,12 @@
 int stringptrlist_fromfile(stringptrlist* l, const char* fn) {
 	fileparser f;
 	stringptr line;
-	int success = 0;
+	int success = 0, ret;
 	if(fileparser_open(&f, fn)) goto err;
-	while(!fileparser_readline(&f) && !fileparser_getline(&f, &line) && line.size) {
+	while(!(ret = fileparser_readline(&f)) && !fileparser_getline(&f, &line)) {
 		if(!stringptrlist_add_strdup(l, &line)) goto ferr;
 	}
-	success = 1;
+	success = (ret == -2);
 	ferr:
 	fileparser_close(&f);
 	err:
-- 
2.43.0


From 2bdc2fd561ad64a9e08c73b772f4aa9faeca01fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:01 +0000
Subject: [PATCH 24/57] fix: filelist_search: a backslash in the directory name
 is literal

---
 src/filelist/filelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index d0de34c..5232fab 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -13,7 +13,7 @@ static size_t cpystr_escape(char *out, const char *in, size_t in_size)
 {
 	size_t out_size = 0;
 	while(in_size && out_size + 2 < PATH_MAX) {
-		if(*in == '[' || *in == '?' || *in == '*') {
+		if(*in == '[' || *in == '?' || *in == '*' || *in == '\\') {
 			*(out++) = '\\';
 			out_size++;
 		}
-- 
2.43.0


From 6822702aa475db0d5276aafdacdf674c8440bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:01 +0000
Subject: [PATCH 25/57] fix: filelist_search: report every failed addition and
 free the list

---
 src/filelist/filelist.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 5232fab..e17f81d 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -55,14 +55,16 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	if((ret = glob(buf, defaultflags | GLOB_MARK, NULL, &l->pglob))) return ret;
 	if(!(l->files = stringptrlist_new(l->pglob.gl_pathc))) {
 		err:
+		if(l->files) stringptrlist_free(l->files);
+		l->files = NULL;
 		globfree(&l->pglob);
 		return -1;
 	}
 	if(!(flags & FLF_INCLUDE_HIDDEN)) {
 		// the strings in the filelist are managed by glob, we dont free them ourselves.
 		// so its save to add string literals.
-		if(flags & FLF_INCLUDE_DOT) stringptrlist_add(l->files, "./", 2);
-		if(flags & FLF_INCLUDE_DOT_DOT) stringptrlist_add(l->files, "../", 3);
+		if(flags & FLF_INCLUDE_DOT && !stringptrlist_add(l->files, "./", 2)) goto err;
+		if(flags & FLF_INCLUDE_DOT_DOT && !stringptrlist_add(l->files, "../", 3)) goto err;
 	}
 	for(i = 0; i < l->pglob.gl_pathc; i++) {
 		s->ptr = l->pglob.gl_pathv[i];
@@ -103,10 +105,7 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 				) continue;
 			}
 		}
-		if(!stringptrlist_add(l->files, s->ptr, s->size)) {
-			free(l->files);
-			goto err;
-		}
+		if(!stringptrlist_add(l->files, s->ptr, s->size)) goto err;
 	}
 	return 0;
 }
-- 
2.43.0


From 506c035663598c84da8bc7bd26ae2ce345c0e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:17 +0000
Subject: [PATCH 26/57] fix: numberToString: pad only if NTS_PAD is given,
 leave at least one digit

---
 src/strlib/numberToString.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index a8e6689..5361a7f 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -37,7 +37,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	for(i = 0; i < len; i++) result[i] = '0';
 	result[len] = 0;
 	if(!number) {
-		if(!flags & NTS_PAD) result += len - 1;
+		if(!(flags & NTS_PAD)) result += len - 1;
 		return result;
 	}
 
@@ -52,8 +52,8 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 		len -= 1;
 		number /= base;
 	}
-	if (!flags & NTS_PAD) {
-		for (i = 0; i < tmp; i++) {
+	if (!(flags & NTS_PAD)) {
+		for (i = 0; i + 1 < tmp; i++) {
 			if (result[i] == '0') shr ++;
 			else break;
 		}
-- 
2.43.0


From b3dfeea0d0c828011760ed9568c6743dadf5113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:17 +0000
Subject: [PATCH 27/57] fix: itoa: convert INT_MIN

---
 src/strlib/itoa.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/strlib/itoa.c b/src/strlib/itoa.c
index 45e2014..5b6be6b 100644
--- a/src/strlib/itoa.c
+++ b/src/strlib/itoa.c
@@ -9,28 +9,29 @@
   because it was written for agscc originally. */
 
 char *itoa(int number, char* buffer) {
-	int lentest, len = 0, i, start;
+	int len = 0, i, start;
+	unsigned lentest, num = number;
 
-	if(number >> 31) {
-		number = number * -1;
+	if(number < 0) {
+		num = 0 - num;
 		buffer[0] = '-';
 		start = 1;
 	} else
 		start = 0;
 
-	lentest = number;
+	lentest = num;
 	do {
 		len++;
 		lentest /= 10;
 	} while(lentest);
 	buffer[start+len] = 0;
 	do {
-		i = number % 10;
+		i = num % 10;
 		buffer[start+len - 1] = '0' + i;
-		number -= i;
+		num -= i;
 		len -= 1;
-		number /= 10;
-	} while (number);
+		num /= 10;
+	} while (num);
 	return buffer;
 }
 
-- 
2.43.0


From b0f86267766aa810d4278b640ffae87a2a8c7604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:17 +0000
Subject: [PATCH 28/57] fix: utoa: count the digits of numbers above INT_MAX

---
 src/strlib/utoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strlib/utoa.c b/src/strlib/utoa.c
index 036984d..8529e69 100644
--- a/src/strlib/utoa.c
+++ b/src/strlib/utoa.c
@@ -9,7 +9,8 @@
   because it was written for agscc originally. */
 
 char *utoa(unsigned number, char* buffer) {
-	int lentest, len = 0, i, start = 0;
+	int len = 0, i, start = 0;
+	unsigned lentest;
 
 	lentest = number;
 	do {
-- 
2.43.0


From d1551806049925f35078156b1be1b9ac88ded1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:17 +0000
Subject: [PATCH 29/57] fix: ulz_vsnprintf: precision, negative hex numbers,
 zero size

A precision of two or more digits was misread, cut off digits instead of
only padding, overflowed the conversion buffer above 31, and was kept for
the next conversion. %x of a negative int printed 64 bits, %c of 0 was
dropped, and a destination size of 0 still stored a terminator.
---
 src/format/ulz_vsnprintf.c | 65 ++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 0c34258..5a4bb16 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -1,22 +1,30 @@
 #include <stdarg.h>
+#include <limits.h>
+#include <string.h>
 #include "../../include/strlib.h"
 #include "../../include/format.h"
 
+/* store a character if there is room, or just count it if there is no target */
+#define PUT(C) do { char put_ = (C); if(o < omax) { *(o++) = put_; res++; } else if(!o) res++; } while(0)
+
 // lightweight sprintf replacement. supports width via %.2x and all int types, and %s, and %% for an escaped %
 // returns the number of bytes written to the target. should behave exactly as posix sprintf except %x also returns hex decimals in uppercase.
 // destsize is treated like in the original. it will leave space for a trailing 0,
 // if NULL is passed as dest it will return the number of bytes it would haven written if a sufficiently large buffer was provided.
 ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list ap) {
-	char *ins, *a, *o = dest, *omax = dest ? dest + destsize - 1: NULL;
+	char *ins, *a, *o = dest, *omax = dest && destsize ? dest + destsize - 1: dest;
 	char cbuf[32];
 	uint64_t inn;
-	size_t i,j, width = 0;
+	size_t i, width = 0;
 	ssize_t res = 0;
-	int nflags = 0;
+	int nflags = 0, haswidth = 0;
 	int lng, lflag; // only required in case 'l'
 	unsigned int base = 10;
 	for(a = (char*)format; *a; a++) {
 		if(*a == '%') {
+			width = 0;
+			haswidth = 0;
+			base = 10;
 			checkmod:
 			++a;
 			switch(*a) {
@@ -26,42 +34,42 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					i = 0;
 					a++;
 					while(isNumber(a + i)) i++;
-					if(!i) {
+					if(!i || haswidth) {
 						fail:
 						return -1;
 					}
 					width = 0;
-					for(j = 0; j < i; j++) width += (a[j] - '0') * (j ? (10 * (i - 1 - j)) : 1);
-					a += i - 1;
+					haswidth = 1;
+					for(; i; i--, a++) {
+						if(width > INT_MAX / 10 - 1) goto fail;
+						width = width * 10 + (*a - '0');
+					}
+					a--;
 					goto checkmod;
 				case 's':
 					ins = va_arg(ap, char*);
-					strmove:
 					if(!ins) goto fail;
-					while(*ins) {
-						if(o < omax) {
-							*o = *ins;
-							o++;
-							res++;
-						} else if (!o) res++;
+					while((!haswidth || width--) && *ins) {
+						PUT(*ins);
 						ins++;
 					}
 					break;
 				case 'c':
-					cbuf[0] = (unsigned char) va_arg(ap, int);
-					cbuf[1] = 0;
-					ins = cbuf;
-					goto strmove;
+					PUT((char) va_arg(ap, int));
+					break;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
-					intstart:
 					inn = va_arg(ap, int);
 					nconv:
-					if(width) nflags |= NTS_PAD;
-					ins = numberToString(inn, base, cbuf, width, nflags);
-					width = 0;
-					base = 10;
-					goto strmove;
+					ins = numberToString(inn, base, cbuf, 0, nflags);
+					if(*ins == '-') {
+						PUT('-');
+						ins++;
+					}
+					/* a width of 0 prints a 0 as nothing at all */
+					if(haswidth && !width && !inn) break;
+					for(i = strlen(ins); i < width; i++) PUT('0');
+					for(; *ins; ins++) PUT(*ins);
 					break;
 				case 'l': case 'z':
 					lng = 0;
@@ -93,19 +101,16 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 				case 'x': case 'X':
 					base = 16;
 					nflags = (*a == 'x') ? NTS_LOWERCASE_CHARS : 0;
-					goto intstart;
+					inn = va_arg(ap, unsigned);
+					goto nconv;
 				default:
 					goto fail;
 			}
 		} else {
 			inschar:
-			if(o < omax) {
-				*o = *a;
-				o++;
-				res++;
-			} else if(!o) res++;
+			PUT(*a);
 		}
 	}
-	if(o) o[0] = 0;
+	if(o && destsize) o[0] = 0;
 	return res;
 }
-- 
2.43.0


From 9a0706f6bee71d47f1295a7aa69f8ddb3617b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:17 +0000
Subject: [PATCH 30/57] fix: stringptr_format: return NULL for a bad format,
 the whole text otherwise

A bad format gave a string of size (size_t)-1, a null format leaked, and
long results were cut off at 999 bytes.
---
 src/stringptr/stringptr_format.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/stringptr/stringptr_format.c b/src/stringptr/stringptr_format.c
index 42293a5..910659f 100644
--- a/src/stringptr/stringptr_format.c
+++ b/src/stringptr/stringptr_format.c
@@ -4,12 +4,16 @@
 #include <stdarg.h>
 
 stringptr* stringptr_format(char* fmt, ...) {
-	const size_t BUF_SIZE = 1000;
-	stringptr* result = stringptr_new(BUF_SIZE);
-	if(!result || !fmt) return NULL;
+	stringptr* result;
+	ssize_t size;
 	va_list ap;
+	if(!fmt) return NULL;
 	va_start(ap, fmt);
-	result->size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
+	size = ulz_vsnprintf(NULL, 0, fmt, ap);
+	va_end(ap);
+	if(size == -1 || !(result = stringptr_new(size))) return NULL;
+	va_start(ap, fmt);
+	ulz_vsnprintf(result->ptr, size + 1, fmt, ap);
 	va_end(ap);
 	return result;
 }
-- 
2.43.0


From 71e12adec7c1bf06ec03fce11c69c5738ff1a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:17 +0000
Subject: [PATCH 31/57] fix: ulz_printf, ulz_fprintf: write nothing for a bad
 format

write() was called with a size of -1.
---
 src/format/ulz_fprintf.c | 2 +-
 src/format/ulz_printf.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_fprintf.c b/src/format/ulz_fprintf.c
index ae605f7..708e68e 100644
--- a/src/format/ulz_fprintf.c
+++ b/src/format/ulz_fprintf.c
@@ -9,7 +9,7 @@ void ulz_fprintf(int fd, const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(fd, dest, result);
 	}
 }
diff --git a/src/format/ulz_printf.c b/src/format/ulz_printf.c
index bc3f342..0b1c5dd 100644
--- a/src/format/ulz_printf.c
+++ b/src/format/ulz_printf.c
@@ -9,7 +9,7 @@ void ulz_printf(const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(1, dest, result);
 	}
 }
-- 
2.43.0


From 70cad6414ab86d84027f636a9f1ad7a1ad444ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:03 +0000
Subject: [PATCH 32/57] fix: iniparser_count_sections: [] with trailing blanks
 is not a section

---
 src/iniparser/iniparser_count_sections.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iniparser/iniparser_count_sections.c b/src/iniparser/iniparser_count_sections.c
index 3e16965..5906389 100644
--- a/src/iniparser/iniparser_count_sections.c
+++ b/src/iniparser/iniparser_count_sections.c
@@ -19,7 +19,7 @@ size_t iniparser_count_sections(stringptrlist* inifile) {
 		if(!line) continue; // this should never happen...
 		if(line->size >= 3 && *line->ptr == '[') {
 			n = getlastnonwhitespace(line);
-			if(n && line->ptr[n - 1] == ']')
+			if(n >= 3 && line->ptr[n - 1] == ']')
 				result++;
 		}
 	}
-- 
2.43.0


From 863a7e9229b5e59c7b041480a1a0d210e9f2f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:03 +0000
Subject: [PATCH 33/57] fix: op_get: compare the name by its size, it need not
 be zero-terminated

---
 src/optparser/op_get.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optparser/op_get.c b/src/optparser/op_get.c
index f813fc7..cdceb06 100644
--- a/src/optparser/op_get.c
+++ b/src/optparser/op_get.c
@@ -22,7 +22,7 @@ char* op_get(op_state* p, stringptr* arg) {
 			l = strleneq(s);
 			if(l == arg->size && !memcmp(arg->ptr, s, l))
 				return s + l + 1;
-			else if(!l && !strcmp(arg->ptr, s) && i+1 < p->argc)
+			else if(!l && strlen(s) == arg->size && !memcmp(arg->ptr, s, arg->size) && i+1 < p->argc)
 				return p->argv[i+1];
 		}
 	}
-- 
2.43.0


From 079dbdef654cc0b075c3b4b0288da96b64c136a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 34/57] fix: base64dec: terminate right after the decoded bytes

If the unused bits before the padding were set, as in "YR==", the byte
after the result was not zero.
---
 src/strlib/base64dec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/strlib/base64dec.c b/src/strlib/base64dec.c
index 6438354..ac6012e 100644
--- a/src/strlib/base64dec.c
+++ b/src/strlib/base64dec.c
@@ -20,7 +20,9 @@ size_t base64dec(unsigned char* dst, const char* src, size_t dst_len) {
 			p = 0;
 		} else if (!*s) {
 			if(cnt % 4 != 0 || !l) return 0;
-			*d++ = 0;
+			*d = 0;
+			/* the bits under the padding may be set */
+			dst[o] = 0;
 			return o;
 		} else if(skip) {
 			return 0;
-- 
2.43.0


From b232d9283a819eea62385421ae3bdb04ff5c4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 35/57] fix: isnumericipv4: refuse a text ending in a dot

---
 src/strlib/isnumericipv4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/isnumericipv4.c b/src/strlib/isnumericipv4.c
index c6280d4..4912160 100644
--- a/src/strlib/isnumericipv4.c
+++ b/src/strlib/isnumericipv4.c
@@ -22,7 +22,7 @@ int isnumericipv4(const char* ipstring) {
 		x++;
 	}
 	done:
-	if(d == 3 && n >= 4 && n <= 12) return 1;
+	if(!wasdot && d == 3 && n >= 4 && n <= 12) return 1;
 	return 0;
 }
 
-- 
2.43.0


From dc6062ada7cec80edb34e611a3982938275f6d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 36/57] fix: strstr_uc, strstar: find matches overlapping a
 partial match

After a mismatch the search went on behind it, so AB was not found in AAB.
---
 src/strlib/strstar.c   | 2 +-
 src/strlib/strstr_uc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strstar.c b/src/strlib/strstar.c
index 6b5165d..dfda983 100644
--- a/src/strlib/strstar.c
+++ b/src/strlib/strstar.c
@@ -13,7 +13,7 @@ char* strstar(const char* haystack, const char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
diff --git a/src/strlib/strstr_uc.c b/src/strlib/strstr_uc.c
index 37e2d76..667fb48 100644
--- a/src/strlib/strstr_uc.c
+++ b/src/strlib/strstr_uc.c
@@ -18,7 +18,7 @@ char* strstr_uc(char* haystack, char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
-- 
2.43.0


From 93a28d36b34e8d172d3d2ce290e7ee13145aed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 37/57] fix: findword: only the start of the text counts as
 word boundary

The place where the search was resumed counted, too, so A was found as a
word in AAA.
---
 src/strlib/findword.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/findword.c b/src/strlib/findword.c
index 00e0806..c68d207 100644
--- a/src/strlib/findword.c
+++ b/src/strlib/findword.c
@@ -21,9 +21,9 @@ static inline int isTrailingWhitespace(char c) {
 }
 
 char* findword(char* buf, char* word_uc, size_t word_len) {
-	char* res = buf;
+	char* res = buf, *start = buf;
 	while(*res && (res = strstr_uc(buf, word_uc, word_len))) {
-		if((res == buf || isLeadingWhitespace(res[-1])) &&
+		if((res == start || isLeadingWhitespace(res[-1])) &&
 		   (res[word_len] == 0 || isTrailingWhitespace(res[word_len])))
 			return res;
 		else buf = res + 1;
-- 
2.43.0


From 35e7b67be9a0d8942252c83b3f9c166143a4a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:37 +0000
Subject: [PATCH 38/57] fix: normalizepath: refuse a path that does not fit the
 buffer

---
 src/filelib/normalizepath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filelib/normalizepath.c b/src/filelib/normalizepath.c
index 1858e0e..1b214cf 100644
--- a/src/filelib/normalizepath.c
+++ b/src/filelib/normalizepath.c
@@ -55,6 +55,7 @@ int normalizepath(stringptr* path) {
 				break;
 			default:
 				copy:
+				if(out.size >= sizeof(buf) - 1) goto fail;
 				out.ptr[out.size++] = path->ptr[i];
 				break;
 		}
-- 
2.43.0


From 426e44f4e3b4125d64e5e927a205729c34ee4e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:37 +0000
Subject: [PATCH 39/57] fix: getFileExt: return NULL if there is no dot

---
 src/filelib/getfileext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/getfileext.c b/src/filelib/getfileext.c
index de63e9f..783dc3b 100644
--- a/src/filelib/getfileext.c
+++ b/src/filelib/getfileext.c
@@ -2,7 +2,7 @@
 
 char* getFileExt(const char* filename, size_t fnlen) {
 	char* p = (char*) filename + fnlen;
-	while(p - 1 > filename && p[-1] != '.') p--;
+	while(p > filename && p[-1] != '.') p--;
 	if(p > filename) return p;
 	else return NULL;
 }
-- 
2.43.0


From 3875db65dd1e1927cd0bafbecedc99594e43be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:37 +0000
Subject: [PATCH 40/57] fix: getpathdiff: report failure if path2 is not below
 path1

---
 src/filelib/getpathdiff.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filelib/getpathdiff.c b/src/filelib/getpathdiff.c
index 8ac70ed..2e976be 100644
--- a/src/filelib/getpathdiff.c
+++ b/src/filelib/getpathdiff.c
@@ -8,8 +8,7 @@
 // workbuf should be at least as big as path2, but not longer than PATH_MAX.
 // all returned results start with /
 ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
-	normalizepath(path1);
-	normalizepath(path2);
+	if(!normalizepath(path1) || !normalizepath(path2)) return -1;
 	// special case : / is the only case where the end of the string is /
 	int isRoot = 0;
 	if(path1->size == 1) {
@@ -18,8 +17,9 @@ ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
 	}
 	ssize_t result = path2->size - path1->size;
 	if(result < 0) return -1;
+	if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
 	if(result) {
-		if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
+		if(path2->ptr[path1->size] != '/') return -1;
 		memcpy(workbuf, path2->ptr + path1->size, result);
 	}
 	workbuf[result] = 0;
-- 
2.43.0


From 2de9b497017246cf53f0fd718fee240f042f18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:07 +0000
Subject: [PATCH 41/57] fix: filelist_search: list . and .. only if asked for,
 also with a mask like .*

---
 src/filelist/filelist.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index e17f81d..30ec320 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -38,6 +38,9 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	stringptr temp, *s = &temp;
 	int isdir;
 	int defaultflags = (flags & FLF_INCLUDE_HIDDEN) ? GLOB_PERIOD : 0;
+	// "." and ".." as returned by glob, they can also come from a mask like ".*"
+	int keepdot = (flags & FLF_INCLUDE_HIDDEN) && (flags & FLF_INCLUDE_DOT);
+	int keepdotdot = (flags & FLF_INCLUDE_HIDDEN) && (flags & FLF_INCLUDE_DOT_DOT);
 
 	if(!dir || !dir->size) dir = SPL("./");
 
@@ -72,11 +75,11 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 		if(!s->size) continue;
 		if(!(flags & FLF_EXCLUDE_PATH)) {
 			// check for xxxx/./ and xxx/../
-			if((flags & FLF_INCLUDE_HIDDEN) && s->size >= 3 && s->ptr[s->size -1] == '/' &&
+			if(s->size >= 3 && s->ptr[s->size -1] == '/' &&
 				s->ptr[s->size -2] == '.') {
 				if(
-					((!(flags & FLF_INCLUDE_DOT)) && s->ptr[s->size-3] == '/') ||
-					((!(flags & FLF_INCLUDE_DOT_DOT)) && s->size >= 4 && s->ptr[s->size-3] == '.' && s->ptr[s->size-4] == '/')
+					(!keepdot && s->ptr[s->size-3] == '/') ||
+					(!keepdotdot && s->size >= 4 && s->ptr[s->size-3] == '.' && s->ptr[s->size-4] == '/')
 				) continue;
 			}
 		} else {
@@ -98,10 +101,10 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 				// this should never happen, since we exchange an empty dir with "./"
 				goto err;
 			}
-			if(flags & FLF_INCLUDE_HIDDEN && s->ptr[0] == '.') {
+			if(s->ptr[0] == '.') {
 				if(
-					((!(flags & FLF_INCLUDE_DOT)) && s->size == 2 && s->ptr[1] == '/') ||
-					((!(flags & FLF_INCLUDE_DOT_DOT)) && s->size == 3 && s->ptr[1] == '.' && s->ptr[2] == '/')
+					(!keepdot && s->size == 2 && s->ptr[1] == '/') ||
+					(!keepdotdot && s->size == 3 && s->ptr[1] == '.' && s->ptr[2] == '/')
 				) continue;
 			}
 		}
-- 
2.43.0


From c091d999f85d65a633e81211035e0daeb8e74da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:26 +0000
Subject: [PATCH 42/57] fix: filelist_search: the default directory must
 outlive the if statement

---
 src/filelist/filelist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 30ec320..73c2375 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -35,14 +35,14 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	char *o;
 	int ret;
 	size_t i;
-	stringptr temp, *s = &temp;
+	stringptr temp, *s = &temp, *local = SPL("./");
 	int isdir;
 	int defaultflags = (flags & FLF_INCLUDE_HIDDEN) ? GLOB_PERIOD : 0;
 	// "." and ".." as returned by glob, they can also come from a mask like ".*"
 	int keepdot = (flags & FLF_INCLUDE_HIDDEN) && (flags & FLF_INCLUDE_DOT);
 	int keepdotdot = (flags & FLF_INCLUDE_HIDDEN) && (flags & FLF_INCLUDE_DOT_DOT);
 
-	if(!dir || !dir->size) dir = SPL("./");
+	if(!dir || !dir->size) dir = local;
 
 	if(!l || !mask || !mask->size || mask->size + dir->size + (dir->ptr[dir->size -1] != '/') + 1U > sizeof(buf)) return -1;
 	i = cpystr_escape(buf, dir->ptr, dir->size);
-- 
2.43.0


From 18c39f0c642997524317fb9de75c38ecfc2236ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:22 +0000
Subject: [PATCH 43/57] fix: ssa_free: ignore pointers below the pool

---
 include/ssalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index 455631d..e3d9c0d 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -95,7 +95,7 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 
 static void ssa_free(ssa_pool* p, void* ptr) {
 	ssize_t idx;
-	if((idx = ssa_getidx(p, ptr)) == -1 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
+	if((idx = ssa_getidx(p, ptr)) < 0 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
 #ifdef DEBUG
 		abort();
 #else
-- 
2.43.0


From 9fbba42327bd923a666c76a532cfd61b37574c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:22 +0000
Subject: [PATCH 44/57] fix: ssa_alloc: find the holes of pools with less than
 8 elements

---
 include/ssalloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index e3d9c0d..42214a7 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -83,9 +83,9 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 		return ssa_set(p, p->top - 1);
 	}
 	if(p->avail) {
-		for(b = 0; b < SSA_MAXELEM / TYPEBITS(SSA_COMPARETYPE); b++) {
+		for(b = 0; TYPEBITS(SSA_COMPARETYPE) * b < SSA_MAXELEM; b++) {
 			if(*((SSA_COMPARETYPE*)(p->used + (sizeof(SSA_COMPARETYPE) * b))) != SSA_COMPARETYPE_ALL_BITS_SET)
-				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1); i++)
+				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1) && i < SSA_MAXELEM; i++)
 					if(!BA_GET(p->used, i))
 						return ssa_set(p, i);
 		}
-- 
2.43.0


From 355b7ecff142cbab890da641b2366fd4ee6ba4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:20 +0000
Subject: [PATCH 45/57] fix: guard_alloc: do not map a page that guard_free
 does not unmap

---
 include/guard_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 49c91d8..95c2845 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -13,7 +13,7 @@
 static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
-	size_t ps = guard_alloc_pagesize, pages = 1+n/ps;
+	size_t ps = guard_alloc_pagesize, pages = n/ps + !!(n%ps);
 	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
-- 
2.43.0


From 4ae613b4c66e71b46213a887a94b6b703b821b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 46/57] fix: guard_alloc: refuse a size that overflows

---
 include/guard_alloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 95c2845..2b2f12d 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -14,7 +14,9 @@ static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
 	size_t ps = guard_alloc_pagesize, pages = n/ps + !!(n%ps);
-	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
+	char *mem;
+	if(pages >= SIZE_MAX/ps) return 0;
+	mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
 		munmap(mem, (pages+1)*ps);
-- 
2.43.0


From 0e82fefb05fe5ea5d08798f35e2c57fdcef5463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:26 +0000
Subject: [PATCH 47/57] fix: process_open: do not pass the pipe ends on to
 other children

---
 src/proclib/process.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index e471ea9..3147b82 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -1,3 +1,5 @@
+#undef _GNU_SOURCE
+#define _GNU_SOURCE
 #include <spawn.h>
 #include <errno.h>
 #include <fcntl.h>
@@ -16,7 +18,7 @@ int process_open(struct process *p, char* const argv[]) {
 		if(errno) goto spawn_error;
 	}
 
-	for(i=0; i<3; ++i) if(pipe(pipes[i])) goto spawn_error;
+	for(i=0; i<3; ++i) if(pipe2(pipes[i], O_CLOEXEC)) goto spawn_error;
 
 	static const unsigned char pipeends[3] = {0,1,1};
 
-- 
2.43.0


From f5c14ca4ff685b035f7c8fd581dd214370f85046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:27 +0000
Subject: [PATCH 48/57] fix: process_open: work if the caller has standard
 descriptors closed

---
 src/proclib/process.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index 3147b82..f28c92f 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -6,9 +6,21 @@
 #include <unistd.h>
 #include "../../include/proclib.h"
 
+/* the child's descriptors 0-2 get replaced, so the pipe must not use them. */
+static int make_pipe(int fds[2]) {
+	int i, fd;
+	if(pipe2(fds, O_CLOEXEC)) return -1;
+	for(i=0; i<2; ++i) if(fds[i] < 3) {
+		if((fd = fcntl(fds[i], F_DUPFD_CLOEXEC, 3)) == -1) return -1;
+		close(fds[i]);
+		fds[i] = fd;
+	}
+	return 0;
+}
+
 int process_open(struct process *p, char* const argv[]) {
 	extern char** environ;
-	int pipes[3][2] = {0}, i,j;
+	int pipes[3][2] = {{-1,-1},{-1,-1},{-1,-1}}, i,j;
 
 	errno = posix_spawn_file_actions_init(&p->fa);
 	if(errno) goto spawn_error;
@@ -18,7 +30,7 @@ int process_open(struct process *p, char* const argv[]) {
 		if(errno) goto spawn_error;
 	}
 
-	for(i=0; i<3; ++i) if(pipe2(pipes[i], O_CLOEXEC)) goto spawn_error;
+	for(i=0; i<3; ++i) if(make_pipe(pipes[i])) goto spawn_error;
 
 	static const unsigned char pipeends[3] = {0,1,1};
 
@@ -37,7 +49,7 @@ int process_open(struct process *p, char* const argv[]) {
 	if(errno) {
 		spawn_error:
 		for(i=0; i<3; ++i) for(j=0; j<2; ++j)
-			if(pipes[i][j]) close(pipes[i][j]);
+			if(pipes[i][j] != -1) close(pipes[i][j]);
 		posix_spawn_file_actions_destroy(&p->fa);
 		return -1;
 	}
-- 
2.43.0


From 29ae4f385bc9cee8da665462028f40f82777c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:29 +0000
Subject: [PATCH 49/57] fix: process_close: keep waiting if a signal arrives

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index f28c92f..4685dd6 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -64,7 +64,7 @@ int process_open(struct process *p, char* const argv[]) {
 int process_close(struct process *p) {
 	int i, retval;
 	for(i=0; i<3; ++i) close(p->fds[i]);
-	waitpid(p->pid, &retval, 0);
+	while(waitpid(p->pid, &retval, 0) == -1 && errno == EINTR);
 	posix_spawn_file_actions_destroy(&p->fa);
 	return WEXITSTATUS(retval);
 }
-- 
2.43.0


From 8c78303c3e48f1254b6fdbd278a6eb1c50452450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:31 +0000
Subject: [PATCH 50/57] fix: process_open: file actions that were not
 initialised must not be destroyed

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index 4685dd6..566ca8f 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -23,7 +23,7 @@ int process_open(struct process *p, char* const argv[]) {
 	int pipes[3][2] = {{-1,-1},{-1,-1},{-1,-1}}, i,j;
 
 	errno = posix_spawn_file_actions_init(&p->fa);
-	if(errno) goto spawn_error;
+	if(errno) return -1;
 
 	for(i=0; i<3; ++i) {
 		errno = posix_spawn_file_actions_addclose(&p->fa, i);
-- 
2.43.0


From dd72e612944b398fc54bf98399d3a294e8e6010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:29 +0000
Subject: [PATCH 51/57] fix: fileparser: work when the file gets descriptor 0

with stdin closed, open() returns 0, which the reader takes for 'no open
file': every read failed and the descriptor was never closed.
---
 src/fileparser/fileparser_open.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fileparser/fileparser_open.c b/src/fileparser/fileparser_open.c
index cb0c490..3c5751b 100644
--- a/src/fileparser/fileparser_open.c
+++ b/src/fileparser/fileparser_open.c
@@ -10,6 +10,12 @@ int fileparser_open(fileparser* parser, const char* filename) {
 	if(!parser || !filename) return -1;
 	if((parser->file = open(filename, O_RDONLY|O_CLOEXEC)) == -1)
 		return errno;
+	if(parser->file == 0) {
+		/* 0 denotes a parser without an open file */
+		parser->file = fcntl(0, F_DUPFD_CLOEXEC, 1);
+		close(0);
+		if(parser->file == -1) return errno;
+	}
 	parser->fpos = 0;
 	return 0;
 }
-- 
2.43.0


From ef5fb1f6a8f51aa5c9eff22c70204c311e3140b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:18 +0000
Subject: [PATCH 52/57] fix: puts of the stdio replacement ends the line like
 puts does

---
 include/stdio-repl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdio-repl.h b/include/stdio-repl.h
index 029dac2..80abdd7 100644
--- a/include/stdio-repl.h
+++ b/include/stdio-repl.h
@@ -44,6 +44,6 @@
 #define dprintf(...) ulz_fprintf(__VA_ARGS__)
 
 #define perror(x) log_puterror(2, x)
-#define puts(x) log_putc(1, x)
+#define puts(x) (log_putc(1, x), log_putln(1))
 
 #endif
-- 
2.43.0


From 614bf88846531c04575efc31adf47018c966ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:49 +0000
Subject: [PATCH 53/57] fix: bmap_fini: flags given as an expression freed the
 wrong part

---
 include/bmap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index 0e16311..67987ee 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -94,8 +94,8 @@ static inline void* bmap_new(bmap_compare_func fn) {
   3: 0+free both
 */
 #define bmap_fini(X, FREEFLAGS) do { \
-	if(FREEFLAGS & 1) {tglist_free_values(&(X)->keys);} \
-	if(FREEFLAGS & 2) {bmap_cat(VAL_LIST_TYPE, _free_values)(&(X)->values);} \
+	if((FREEFLAGS) & 1) {tglist_free_values(&(X)->keys);} \
+	if((FREEFLAGS) & 2) {bmap_cat(VAL_LIST_TYPE, _free_values)(&(X)->values);} \
 	tglist_free_items(&(X)->keys); \
 	bmap_cat(VAL_LIST_TYPE, _free_items)(&(X)->values); \
 } while(0)
-- 
2.43.0


From c2c49cb443bfcdb575144f935f182ebb6bd6be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:49 +0000
Subject: [PATCH 54/57] fix: strlib.h: base64 sizes were wrong for a length
 given as an expression

---
 include/strlib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strlib.h b/include/strlib.h
index 8e2f6ca..db15416 100644
--- a/include/strlib.h
+++ b/include/strlib.h
@@ -80,13 +80,13 @@ extern const size_t conv_cypher_len;
 extern const char base64_tbl[64];
 
 /* calculates number of bytes base64-encoded stream of N bytes will take. */
-#define BASE64ENC_BYTES(N) (((N+2)/3)*4)
+#define BASE64ENC_BYTES(N) ((((N)+2)/3)*4)
 /* calculates the required output buffer size to base64-encode
  * N bytes (equals BASE64ENC_BYTES + 1 byte for the zero terminator) */
 #define BASE64ENC_BUFSIZE(N) (1+BASE64ENC_BYTES(N))
 /* calculates number of bytes base64-decoding of a string of N bytes will
    take. */
-#define BASE64DEC_BYTES(N) ((N/4)*3)
+#define BASE64DEC_BYTES(N) (((N)/4)*3)
 /* bytes required for base64 decoded output from an input string of length N */
 #define BASE64DEC_BUFSIZE(N) (1+BASE64DEC_BYTES(N))
 
-- 
2.43.0


From 5e7a2133746a3b835a852149aa4a73b5d58aa529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:49 +0000
Subject: [PATCH 55/57] fix: bitarray.h: bits given as an expression went to
 the wrong places of BYTEM and BYTEL

---
 include/bitarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitarray.h b/include/bitarray.h
index 7c0ec85..33b69b4 100644
--- a/include/bitarray.h
+++ b/include/bitarray.h
@@ -13,8 +13,8 @@
 #include <stddef.h>
 #include <limits.h>
 
-#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
-#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
+#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
+#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
 
 #define BA_SIZE_REQUIRED(X) (((X) / CHAR_BIT) + !!((X) % CHAR_BIT))
 #define BA_TARGET_BYTE(X, Y) ((X) + ((Y) / CHAR_BIT))
-- 
2.43.0


From 272681b810717f368b8ca944603d35fd12e2882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 56/57] fix: hbmap_delete with a lookup as iterator crashed or
 deleted from the wrong bucket

---
 include/hbmap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hbmap.h b/include/hbmap.h
index 6f01369..7f67178 100644
--- a/include/hbmap.h
+++ b/include/hbmap.h
@@ -167,6 +167,7 @@ static hbmap_iter hbmap_next_valid_impl(void *h, hbmap_iter iter, size_t nbucks)
 	)
 
 #define hbmap_delete(X, ITER) ( \
-	bmap_delete(&(X)->buckets[hbmap_iter_bucket(ITER)], hbmap_iter_index(ITER)), 1)
+	(X)->tmp.it = (ITER), \
+	bmap_delete(&(X)->buckets[hbmap_iter_bucket((X)->tmp.it)], hbmap_iter_index((X)->tmp.it)), 1)
 
 #endif
-- 
2.43.0


From 80891cb1cfd8dbb7cb9010cb9b3eb415ec4cc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 57/57] fix: hbmap_init and hbmap_fini captured caller
 variables named i and p

---
 include/hbmap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hbmap.h b/include/hbmap.h
index 7f67178..6305f30 100644
--- a/include/hbmap.h
+++ b/include/hbmap.h
@@ -52,9 +52,9 @@ struct NAME { \
 #define hbmap_init_impl(X, COMPAREFUNC, HASHFUNC, NUMBUCKETS) do{\
 	memset(X, 0, hbmap_struct_size_impl(NUMBUCKETS)); \
 	((hbmap_proto(1)*)(void*)(X))->hash_func = (void*)HASHFUNC; \
-	bmap_proto *p = (void*)(&((hbmap_proto(1)*)(void*)(X))->buckets[0]); \
-	size_t i; for(i=0; i<NUMBUCKETS; ++i) \
-		p[i].compare = COMPAREFUNC; \
+	bmap_proto *hbmap_p_impl = (void*)(&((hbmap_proto(1)*)(void*)(X))->buckets[0]); \
+	size_t hbmap_i_impl; for(hbmap_i_impl=0; hbmap_i_impl<NUMBUCKETS; ++hbmap_i_impl) \
+		hbmap_p_impl[hbmap_i_impl].compare = COMPAREFUNC; \
 	} while(0)
 
 /* initialization */
@@ -78,8 +78,8 @@ static inline void* hbmap_new(bmap_compare_func fn, void* hash_func, size_t numb
   3: 0+free both
 */
 #define hbmap_fini(X, FREEFLAGS) do { \
-	size_t i; for(i=0; i < hbmap_getbucketcount(X); ++i) \
-		{ bmap_fini(&(X)->buckets[i], FREEFLAGS); } \
+	size_t hbmap_i_impl; for(hbmap_i_impl=0; hbmap_i_impl < hbmap_getbucketcount(X); ++hbmap_i_impl) \
+		{ bmap_fini(&(X)->buckets[hbmap_i_impl], FREEFLAGS); } \
 } while(0)
 
 /* internal stuff needed for iterator impl */
-- 
2.43.0

