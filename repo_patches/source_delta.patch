From 587029cdb6dd46cba6e87cfebbae2ed24818184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 001/112] fix: Complex *= and / compute the wrong imaginary
 part

---
 include/trident/utils/fft.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/trident/utils/fft.h b/include/trident/utils/fft.h
index 3919904..b0b3335 100644
--- a/include/trident/utils/fft.h
+++ b/include/trident/utils/fft.h
@@ -35,8 +35,7 @@ typedef struct Complex {
     }
 
     Complex& operator *= (Complex c) {
-        this->real = (this->real * c.real) - (this->imag * c.imag);
-        this->imag = (this->real * c.imag) + (this->imag * c.real);
+        *this = *this * c;
         return *this;
     }
 
@@ -45,7 +44,7 @@ typedef struct Complex {
     }
 
     Complex operator / (double d) {
-	return Complex(this->real/d, -this->imag/d);
+	return Complex(this->real/d, this->imag/d);
     }
 
 } Complex;
-- 
2.43.0


From 3f6b11d6fa1a368aed3db0387ff930e6d2463175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 002/112] fix: ccorr with a float output never produced any
 value

---
 src/trident/utils/fft.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/trident/utils/fft.cpp b/src/trident/utils/fft.cpp
index c89fefe..b72041a 100644
--- a/src/trident/utils/fft.cpp
+++ b/src/trident/utils/fft.cpp
@@ -205,8 +205,7 @@ void ccorr(double* a, double* b, uint16_t size, vector<float>& out) {
     fftw_free(temp);
     fftw_free(aOut);
     fftw_free(bOut);*/
-    /*
-     * vector<Complex> ac;
+    vector<Complex> ac;
     for (int i = 0; i < size; ++i) {
         Complex temp;
         temp.real = a[i];
@@ -225,7 +224,7 @@ void ccorr(double* a, double* b, uint16_t size, vector<float>& out) {
 
     for (auto d : out_d) {
         out.push_back((float) d);
-    }*/
+    }
 }
 
 void cconv(double* a, double* b, uint16_t size, std::vector<float>& out) {
-- 
2.43.0


From 4aff32466c85c50cdceabae669aa146c0a31a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 003/112] fix: ArrayItr reports pairs that do not match an
 absent constraint

---
 src/trident/iterators/arrayitr.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 6e2bf88..4715041 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -173,7 +173,9 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
 
     if (constraint1 != -1) {
         pos = binarySearch(array.get(), 0, nElements, constraint1);
-        if (pos >= 0) {
+        //If the value does not exist then binarySearch can return the position
+        //of another one
+        if (pos >= 0 && array->at(pos).first == constraint1) {
             if (constraint2 != -1) {
                 // The values are not many. Let's try to do a linear search
                 // and see how it goes...
@@ -182,7 +184,8 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
                     pos++;
                 }
                 hasNextChecked = true;
-                n = pos < nElements && array->at(pos).second == constraint2;
+                n = pos < nElements && array->at(pos).first == constraint1
+                    && array->at(pos).second == constraint2;
             } else {
                 hasNextChecked = n = true;
             }
@@ -193,7 +196,8 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
         }
     } else {
         pos = 0;
-        hasNextChecked = n = true;
+        hasNextChecked = true;
+        n = nElements > 0;
     }
 }
 
-- 
2.43.0


From 4ff3b2e038e5aca6dd934a0bafd036a0295c1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 004/112] fix: B+tree nodes with a key step of 128..255 could
 not be read back

---
 src/trident/tree/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index ae28591..cfb881c 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -101,7 +101,7 @@ int Node::unserialize(char* bytes, int pos) {
         firstKey = Utils::decode_long(bytes, pos);
         pos += 8;
         if (size > 1) {
-            char step = bytes[pos++];
+            uint8_t step = (uint8_t) bytes[pos++];
             if (step > 0) {
                 consecutive = true;
                 consecutiveStep = step;
-- 
2.43.0


From 464c29fc535549156feb611d88cc6feec5c0fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 005/112] fix: FlatRoot::get reads outside the tree for keys
 beyond its last entry

---
 src/trident/tree/flatroot.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/flatroot.cpp b/src/trident/tree/flatroot.cpp
index 2d38d22..33fc5f7 100644
--- a/src/trident/tree/flatroot.cpp
+++ b/src/trident/tree/flatroot.cpp
@@ -28,8 +28,11 @@ void FlatRoot::__set(int permid, char *block, TermCoordinates *value) {
 }
 
 bool FlatRoot::get(nTerm key, TermCoordinates *value) {
-    char *start = raw + key * sizeblock;
     value->clear();
+    if (key < 0 || (size_t) key >= len / sizeblock) {
+        return false;
+    }
+    char *start = raw + key * sizeblock;
     __set(IDX_SOP, start + 5, value);
     if (!unlabeled || !undirected) {
         __set(IDX_OSP, start + 18, value);
-- 
2.43.0


From 54d86584466765c8b453f7b94bedccf9a980becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 006/112] fix: the loader writes outside its partitions if
 parallelThreads is not a multiple of maxReadingThreads

---
 src/trident/kb/loader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index 1b6f867..3293d6f 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -1473,6 +1473,14 @@ void Loader::load(ParamsLoad p) {
         p.maxReadingThreads = p.parallelThreads;
     }
 
+    //The processing threads are divided evenly over the reading ones
+    if (p.maxReadingThreads > 1 && p.parallelThreads % p.maxReadingThreads != 0) {
+        do {
+            p.maxReadingThreads--;
+        } while (p.parallelThreads % p.maxReadingThreads != 0);
+        LOG(WARNL) << "The parallelThreads parameter must be a multiple of maxReadingThreads. I set the latter to = " << p.maxReadingThreads;
+    }
+
     if (p.dictionaries > p.parallelThreads) {
         LOG(WARNL) << "The dictionary partitions cannot be higher than the maximum number of threads. I set it to = " << p.parallelThreads;
         p.dictionaries = p.parallelThreads;
-- 
2.43.0


From c2cfb212c2d99bac670eeb059fc79b37d1c8da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 007/112] fix: a last line without newline is read past the end
 of the input buffer

---
 src/trident/kb/loader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index 3293d6f..1effa99 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -343,10 +343,11 @@ void Loader::createPermsAndDictsFromFiles_seq(DiskReader *reader,
             start++;
         }
         if (start > tkn) {
-            triple[pos++] = std::stol(tkn);
+            triple[pos++] = std::stol(string(tkn, start - tkn));
         }
         tkn = start + 1;
         if (pos > 1) {
+            processedtriples++;
             if (pos == 2) {
                 //Add an empty predicate
                 writer->writeLong(id, triple[0]);
-- 
2.43.0


From 5744f182edbedc089546d1917a1d9985f0742371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 008/112] fix: five-byte table values with the top bit set are
 read back negative

---
 include/trident/binarytables/binarytablereaders.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/binarytables/binarytablereaders.h b/include/trident/binarytables/binarytablereaders.h
index e00e672..f7ea0ae 100644
--- a/include/trident/binarytables/binarytablereaders.h
+++ b/include/trident/binarytables/binarytablereaders.h
@@ -71,7 +71,7 @@ public:
     }
 
     static uint64_t read(const char* buffer) {
-        uint64_t n = (int64_t) (buffer[0]) << 32;
+        uint64_t n = (int64_t) (buffer[0] & 0xFF) << 32;
         n += (int64_t) (buffer[1] & 0xFF) << 24;
         n += (buffer[2] & 0xFF) << 16;
         n += (buffer[3] & 0xFF) << 8;
-- 
2.43.0


From a495e61deeff21f06e397439de8b7b2dd74f373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 009/112] fix: the padding of the sort buffers sorts before
 triples with identifiers above 0x0101010101

---
 src/trident/kb/permsorter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/kb/permsorter.cpp b/src/trident/kb/permsorter.cpp
index 9863c50..ab7f810 100644
--- a/src/trident/kb/permsorter.cpp
+++ b/src/trident/kb/permsorter.cpp
@@ -582,7 +582,7 @@ void PermSorter::sortChunks2_fill(
             + counts[i] * sizeTriple;
         char *beg_n = rawTriples + (i * maxInserts + limit) * sizeTriple;
         if (end_p < beg_n) {
-            memset(end_p, 1, beg_n-end_p);
+            memset(end_p, 0xFF, beg_n-end_p);
         }
     }
 }
-- 
2.43.0


From 901419dca73f846da45e357b705cf3f51fbd3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 010/112] fix: TermItr::gotoKey compares eight bytes of a
 five-byte key

---
 src/trident/iterators/termitr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/iterators/termitr.cpp b/src/trident/iterators/termitr.cpp
index 3ba5551..e6fb81d 100644
--- a/src/trident/iterators/termitr.cpp
+++ b/src/trident/iterators/termitr.cpp
@@ -143,7 +143,7 @@ void TermItr::gotoKey(int64_t keyToSearch) {
     while (start < end) {
         const size_t nels = (end - start) / 11;
         const char *middle = start + (nels / 2) * 11;
-        const int64_t k = Utils::decode_long(middle + 5);
+        const int64_t k = Utils::decode_longFixedBytes(middle + 5, 5);
         if (k < keyToSearch) {
             start = middle + 11;
         } else if (k > keyToSearch) {
-- 
2.43.0


From 6557c4a315a150c087ae15f854964d3b8fb316ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 011/112] fix: ReOrderItr does not restore its position on
 reset, and moveto/gotoKey lose rows

---
 include/trident/iterators/reorderitr.h |  8 +++++++-
 src/trident/iterators/reorderitr.cpp   | 10 ++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/trident/iterators/reorderitr.h b/include/trident/iterators/reorderitr.h
index 53de0ba..1dce196 100644
--- a/include/trident/iterators/reorderitr.h
+++ b/include/trident/iterators/reorderitr.h
@@ -116,6 +116,9 @@ public:
         m_itr = itr;
         m_key = key;
         m_nextKeyIndex = nextKeyIndex;
+        if (itr != NULL) {
+            itr->mark();
+        }
     }
 
     LIBEXP void reset(const char i) {
@@ -126,6 +129,9 @@ public:
         itr = m_itr;
         key = m_key;
         nextKeyIndex = m_nextKeyIndex;
+        if (itr != NULL) {
+            itr->reset(i);
+        }
     }
 
     LIBEXP void clear() {
@@ -146,7 +152,7 @@ public:
     }
 
     LIBEXP void moveto(const int64_t c1, const int64_t c2) {
-        if (itr == NULL || ! itr->hasNext()) {
+        if (itr == NULL) {
 	    // Should itr == NULL even be allowed here?
 	    // Anyway, moveto should not move to a next key.
 	    return;
diff --git a/src/trident/iterators/reorderitr.cpp b/src/trident/iterators/reorderitr.cpp
index 78977d7..97cee05 100644
--- a/src/trident/iterators/reorderitr.cpp
+++ b/src/trident/iterators/reorderitr.cpp
@@ -296,13 +296,11 @@ void ReOrderItr::gotoKey(int64_t newkey) {
 	}
 	nextKeyIndex++;
     }
-    if (nextKeyIndex < array.size()) {
-	if (itr != NULL && itr != m_itr) {
-	    itr->clear();
-	    delete itr;
-	}
-	itr = NULL;
+    if (itr != NULL && itr != m_itr) {
+	itr->clear();
+	delete itr;
     }
+    itr = NULL;
     hasNext();
 }
 
-- 
2.43.0


From baeecdf185e165b6d5104fef61820af5538a8a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 012/112] fix: NewRowTable::reset leaves the values of a later
 row

---
 include/trident/binarytables/newrowtable.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 9b3e86e..e2dfb24 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -43,6 +43,9 @@ class NewRowTable: public AbsNewTable {
         bool isSecondColumnIgnored;
 
         const char *currentMark;
+        int64_t markValue1;
+        int64_t markValue2;
+        int64_t markCount;
 
     public:
         int64_t getValue1() {
@@ -289,10 +292,16 @@ class NewRowTable: public AbsNewTable {
 
         void mark() {
             currentMark = current;
+            markValue1 = currentValue1;
+            markValue2 = currentValue2;
+            markCount = count;
         }
 
         void reset(const char i) {
             current = currentMark;
+            currentValue1 = markValue1;
+            currentValue2 = markValue2;
+            count = markCount;
         }
 
         void ignoreSecondColumn() {
-- 
2.43.0


From ce0685b3715febc6c8cfd6f8fd3e48b63f047040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 013/112] fix: ArrayItr::reset leaves the values of a later
 pair

---
 include/trident/iterators/arrayitr.h | 2 ++
 src/trident/iterators/arrayitr.cpp   | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/include/trident/iterators/arrayitr.h b/include/trident/iterators/arrayitr.h
index 1a0632e..17a3e7b 100644
--- a/include/trident/iterators/arrayitr.h
+++ b/include/trident/iterators/arrayitr.h
@@ -40,6 +40,8 @@ private:
     int64_t v1, v2;
 
     int markPos;
+    int64_t markV1, markV2;
+    int64_t markCountElems;
     bool hasNextChecked;
     bool n;
     bool ignSecondColumn;
diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 4715041..937babc 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -100,10 +100,16 @@ void ArrayItr::clear() {
 
 void ArrayItr::mark() {
     markPos = pos;
+    markV1 = v1;
+    markV2 = v2;
+    markCountElems = countElems;
 }
 
 void ArrayItr::reset(const char i) {
     pos = markPos;
+    v1 = markV1;
+    v2 = markV2;
+    countElems = markCountElems;
     hasNextChecked = false;
 }
 
-- 
2.43.0


From a85380ee6b93a83af7a905a5819ad25ac86cc75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 014/112] fix: the default next(v1,v2,v3) of the iterators does
 not return the row

---
 include/trident/iterators/pairitr.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/trident/iterators/pairitr.h b/include/trident/iterators/pairitr.h
index 6987c8b..9b5cf8f 100644
--- a/include/trident/iterators/pairitr.h
+++ b/include/trident/iterators/pairitr.h
@@ -59,6 +59,9 @@ class PairItr {
 
         virtual bool next(int64_t &v1, int64_t &v2, int64_t &v3) {
             next();
+            v1 = getKey();
+            v2 = getValue1();
+            v3 = getValue2();
             return hasNext();
         }
 
-- 
2.43.0


From b4d610e4bbb7906eaa09541d78c45bb014b23387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 015/112] fix: NewColumnTable::next(v1,v2,v3) does not return
 the key

---
 include/trident/binarytables/newcolumntable.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/trident/binarytables/newcolumntable.h b/include/trident/binarytables/newcolumntable.h
index c03a536..a37bed7 100644
--- a/include/trident/binarytables/newcolumntable.h
+++ b/include/trident/binarytables/newcolumntable.h
@@ -186,6 +186,7 @@ class NewColumnTable: public AbsNewTable {
 
         bool next(int64_t &v1, int64_t &v2, int64_t &v3) {
             next();
+            v1 = key;
             v2 = currentValue1;
             v3 = currentValue2;
             return hasNext();
-- 
2.43.0


From b3ecf72a93d5f3a0af2711ee9deb9db1603bfbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 016/112] fix: ScanItr::next(v1,v2,v3) returns a stale key over
 reversed tables

---
 src/trident/iterators/scanitr.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trident/iterators/scanitr.cpp b/src/trident/iterators/scanitr.cpp
index 537a4e4..77f49c4 100644
--- a/src/trident/iterators/scanitr.cpp
+++ b/src/trident/iterators/scanitr.cpp
@@ -220,6 +220,7 @@ bool ScanItr::next(int64_t &v1, int64_t &v2, int64_t &v3) {
     } else {
         hasNext = currentTable->next(v1, v2, v3);
     }
+    v1 = getKey(); //The key is not set in the iterators over reversed tables
 
     if (!hasNext) {
         hnc = false;
-- 
2.43.0


From dd5fdee997be92414116a6faa120fbf48105db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:06 +0000
Subject: [PATCH 017/112] fix: NewColumnTable restricted to one first term
 loses track of its group, moveto goes past the end

---
 include/trident/binarytables/newcolumntable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/trident/binarytables/newcolumntable.h b/include/trident/binarytables/newcolumntable.h
index a37bed7..7c6d1a8 100644
--- a/include/trident/binarytables/newcolumntable.h
+++ b/include/trident/binarytables/newcolumntable.h
@@ -424,6 +424,8 @@ class NewColumnTable: public AbsNewTable {
                         currentpos1 = startpos1;
                         nUniqueFirstTerms = 1;
                         nTerms = currentCount;
+                        //The next call to next() must read the first term
+                        scannedCounts = currentCount = 0;
                     } else {
                         //Make it fail
                         currentpos1 = startpos2;
-- 
2.43.0


From 4946efd030b4964af11da6a5f74c949dc5962e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 018/112] fix: cardinalities shared between databases, ignoring
 deletions, and zero for permutations without own tables

---
 include/trident/kb/querier.h |  7 +++
 src/trident/kb/querier.cpp   | 88 +++++++++++++++---------------------
 2 files changed, 44 insertions(+), 51 deletions(-)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 288d300..74da490 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -46,6 +46,8 @@
 #include <kognac/factory.h>
 
 #include <iostream>
+#include <map>
+#include <tuple>
 
 class TableStorage;
 class ListPairHandler;
@@ -290,6 +292,9 @@ class Querier {
 
         TermCoordinates currentValue;
 
+        //Cardinalities already computed by getCard
+        std::map<std::tuple<int64_t, int64_t, int64_t>, int64_t> cardinalities;
+
         //Factories
         Factory<ArrayItr> factory2;
         Factory<ScanItr> factory3;
@@ -370,6 +375,8 @@ class Querier {
 
         static int64_t getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o);
 
+        int64_t getNElementsKey(const int perm, const int64_t key);
+
     public:
 
         struct Counters {
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index eef5b40..5be6864 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -399,22 +399,10 @@ uint64_t Querier::estCardOnIndex(const int idx, const int64_t first, const int64
         releaseItr(itr);
         return card;
     } else {
-        if (lastKeyQueried != key1) {
-            lastKeyFound = tree->get(key1, &currentValue);
-            lastKeyQueried = key1;
+        if (!isPresent(idx) && !(idx >= 3 && isPresent(idx - 3))) {
+            return getCardOnIndex(idx, first, second, third);
         }
-        int perm = idx;
-        if (perm > 2)
-            perm = perm - 3;
-
-        int64_t nElements = 0;
-        if (currentValue.exists(perm)) {
-            nElements += currentValue.getNElements(perm);
-        }
-        for (size_t i = 0; i < diffIndices.size(); ++i) {
-            nElements += diffIndices[i]->getCard(perm, key1);
-        }
-        return nElements;
+        return getNElementsKey(idx, key1);
     }
 }
 
@@ -450,37 +438,39 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
             key = o;
             // perm = IDX_OPS;
         }
-        if (lastKeyQueried != key) {
-            lastKeyFound = tree->get(key, &currentValue);
-            lastKeyQueried = key;
+        if (!isPresent(perm) && !(perm >= 3 && isPresent(perm - 3))) {
+            return getCard(s, p, o);
         }
+        return getNElementsKey(perm, key);
+    }
+    throw 10;
+}
 
-        int64_t nElements = 0;
+//Number of triples with the term "key" in the first position of perm. The
+//tables in perm might not be stored, in which case they are the same as the
+//ones of the permutation with the other two columns inverted
+int64_t Querier::getNElementsKey(const int perm, const int64_t key) {
+    if (lastKeyQueried != key) {
+        lastKeyFound = tree->get(key, &currentValue);
+        lastKeyQueried = key;
+    }
+    const int perm2 = perm >= 3 ? perm - 3 : perm;
+    int64_t nElements = 0;
+    if (lastKeyFound) {
         if (currentValue.exists(perm)) {
             nElements += currentValue.getNElements(perm);
+        } else if (currentValue.exists(perm2)) {
+            nElements += currentValue.getNElements(perm2);
         }
-        for (size_t i = 0; i < diffIndices.size(); ++i) {
-            nElements += diffIndices[i]->getCard(perm, key);
-        }
-        return nElements;
     }
-    throw 10;
-}
-
-template <typename R, typename... Args>
-std::function<R (Args...)> memo(R (*fn)(Args...)) {
-    static std::map<std::tuple<Args...>, R> table;
-    return [fn](Args... args) mutable -> R {
-        auto argt = std::make_tuple(args...);
-        auto memoized = table.find(argt);
-        if(memoized == table.end()) {
-            auto result = fn(args...);
-            table[argt] = result;
-            return result;
+    for (size_t i = 0; i < diffIndices.size(); ++i) {
+        if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
+            nElements += diffIndices[i]->getCard(perm2, key);
         } else {
-            return memoized->second;
+            nElements -= diffIndices[i]->getCard(perm2, key);
         }
-    };
+    }
+    return nElements;
 }
 
 int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o) {
@@ -503,18 +493,7 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
             key = p;
         else
             key = o;
-        if (q->lastKeyQueried != key) {
-            q->lastKeyFound = q->tree->get(key, &q->currentValue);
-            q->lastKeyQueried = key;
-        }
-        int64_t nElements = 0;
-        if (q->lastKeyFound && q->currentValue.exists(idx)) {
-            nElements += q->currentValue.getNElements(idx);
-        }
-        for (size_t i = 0; i < q->diffIndices.size(); ++i) {
-            nElements += q->diffIndices[i]->getCard(idx, key);
-        }
-        return nElements;
+        return q->getNElementsKey(idx, key);
     }
 
     //Two or three constants, or idx not present
@@ -536,7 +515,14 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
 }
 
 int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o) {
-    return memo(getCard_internal)(this, s, p, o);
+    const std::tuple<int64_t, int64_t, int64_t> pattern(s, p, o);
+    auto itr = cardinalities.find(pattern);
+    if (itr != cardinalities.end()) {
+        return itr->second;
+    }
+    const int64_t card = getCard_internal(this, s, p, o);
+    cardinalities[pattern] = card;
+    return card;
 }
 
 
-- 
2.43.0


From 0587af68f7df8245ae8ec58ab4feefa5cda4d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:59 +0000
Subject: [PATCH 019/112] fix: AggrItr reports its cardinality only if
 hasNext() was called before

---
 src/trident/iterators/aggritr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index 8b76cf4..1039331 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -175,7 +175,7 @@ void AggrItr::init(int idx, PairItr* itr, Querier *q) {
     value1 = value2 = -1;
     this->q = q;
     this->idx = idx;
-    hasNextChecked = false;
+    hasNextChecked = n = false;
     noSecColumn = false;
     secondItr = NULL;
     PairItr::setConstraint1(mainItr->getConstraint1());
@@ -183,7 +183,7 @@ void AggrItr::init(int idx, PairItr* itr, Querier *q) {
 }
 
 uint64_t AggrItr::getCardinality() {
-    if (n) {
+    if (hasNext()) {
         if (noSecColumn) {
             return mainItr->getCardinality();
         } else {
@@ -200,7 +200,7 @@ uint64_t AggrItr::getCardinality() {
 }
 
 uint64_t AggrItr::estCardinality() {
-    if (n) {
+    if (hasNext()) {
         if (noSecColumn) {
             return mainItr->estCardinality();
         } else {
-- 
2.43.0


From f4e569595c4d2251ce7ce83a37b6f2d86206e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:09 +0000
Subject: [PATCH 020/112] fix: edge and group primitives: keys of bound
 patterns, repeated variables and pos_* results

---
 include/trident/iterators/filtersameitr.h | 12 +--
 include/trident/kb/querier.h              | 89 ++++++++++++++++-------
 src/trident/kb/querier.cpp                |  6 +-
 3 files changed, 69 insertions(+), 38 deletions(-)

diff --git a/include/trident/iterators/filtersameitr.h b/include/trident/iterators/filtersameitr.h
index c01f7a8..4545862 100644
--- a/include/trident/iterators/filtersameitr.h
+++ b/include/trident/iterators/filtersameitr.h
@@ -46,6 +46,8 @@ class FilterSameItr: public PairItr {
             this->underlying = underlying;
             this->pos1 = pos1;
             this->pos2 = pos2;
+            hn = hnc = false;
+            savedhn = savedhnc = false;
         }
 
         int getTypeItr() {
@@ -60,14 +62,6 @@ class FilterSameItr: public PairItr {
             return underlying->getValue2();
         }
 
-        int64_t getKey() {
-            return underlying->getKey();
-        }
-
-        void setKey(int64_t key) {
-            underlying->setKey(key);
-        }
-
         bool hasNext() {
             if (! hnc) {
                 hnc = true;
@@ -100,6 +94,7 @@ class FilterSameItr: public PairItr {
         }
 
         void next() {
+            setKey(underlying->getKey());
             hnc = false;
         }
 
@@ -135,6 +130,7 @@ class FilterSameItr: public PairItr {
             hn = savedhn;
             hnc = savedhnc;
             underlying->reset(r);
+            setKey(underlying->getKey());
         }
 
         void moveto(const int64_t c1, const int64_t c2) {
diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 74da490..a70260a 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -144,6 +144,10 @@ class EdgeItr {
             v[2] = getObject();
         }
 
+        uint64_t getTerm(int pos) {
+            return getValue(order[pos]);
+        }
+
         uint64_t getSubject() {
             return getValue(order[0]);
         }
@@ -160,6 +164,7 @@ class EdgeItr {
 class OneKeyCardItr: public KeyCardItr {
     private:
         EdgeItr *itr;
+        int pos;
         bool hn;
         bool hnDone;
         bool nextDone;
@@ -167,7 +172,8 @@ class OneKeyCardItr: public KeyCardItr {
         uint64_t nextKey1;
 
     public:
-        OneKeyCardItr(EdgeItr *itr) : itr(itr), hnDone(false), nextDone(false) {
+        //pos is the position of the key in the edge (0=s, 1=r, 2=d)
+        OneKeyCardItr(EdgeItr *itr, int pos) : itr(itr), pos(pos), hnDone(false), nextDone(false) {
         }
 
         bool hasNext() {
@@ -184,10 +190,10 @@ class OneKeyCardItr: public KeyCardItr {
                 if (hn) {
                     nextDone = false;
                     nextCard = 1;
-                    nextKey1 = itr->getValue(0);
+                    nextKey1 = itr->getTerm(pos);
                     while (itr->hasNext()) {
                         itr->next();
-                        if (itr->getValue(0) != nextKey1) {
+                        if (itr->getTerm(pos) != nextKey1) {
                             nextDone = true;
                             break;
                         }
@@ -215,6 +221,7 @@ class OneKeyCardItr: public KeyCardItr {
 class TwoKeyCardItr: public KeyCardItr {
     private:
         EdgeItr *itr;
+        int pos1, pos2;
         bool hn;
         bool hnDone;
         bool nextDone;
@@ -223,7 +230,8 @@ class TwoKeyCardItr: public KeyCardItr {
         uint64_t nextKey2;
 
     public:
-        TwoKeyCardItr(EdgeItr *itr) : itr(itr), hnDone(false), nextDone(false) {
+        //pos1 and pos2 are the positions of the keys in the edge (0=s, 1=r, 2=d)
+        TwoKeyCardItr(EdgeItr *itr, int pos1, int pos2) : itr(itr), pos1(pos1), pos2(pos2), hnDone(false), nextDone(false) {
         }
 
         bool hasNext() {
@@ -240,11 +248,11 @@ class TwoKeyCardItr: public KeyCardItr {
                 if (hn) {
                     nextDone = false;
                     nextCard = 1;
-                    nextKey1 = itr->getValue(0);
-                    nextKey2 = itr->getValue(1);
+                    nextKey1 = itr->getTerm(pos1);
+                    nextKey2 = itr->getTerm(pos2);
                     while (itr->hasNext()) {
                         itr->next();
-                        if (itr->getValue(0) != nextKey1 || itr->getValue(1) != nextKey2) {
+                        if (itr->getTerm(pos1) != nextKey1 || itr->getTerm(pos2) != nextKey2) {
                             nextDone = true;
                             break;
                         }
@@ -429,7 +437,9 @@ class Querier {
             if (sameVar(s, r, d, p1, p2)) {
                 PairItr *it = getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
                 FilterSameItr *fi = factory16.get();
-                fi->init(it, p1, p2);
+                //The positions depend on the order of the columns in the index
+                int *order = getInvOrder(idx);
+                fi->init(it, std::min(order[p1], order[p2]), std::max(order[p1], order[p2]));
                 itr = fi;
             } else {
                 itr = getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
@@ -711,17 +721,15 @@ class Querier {
             int p1, p2;
             if (sameVar(s, r, d, p1, p2)) {
                 uint64_t cnt = 0;
-                PairItr *it = getIterator(IDX_SPO, s, r, d);
-                FilterSameItr *fi = factory16.get();
-                fi->init(it, p1, p2);
-                while (fi->hasNext()) {
-                    fi->next();
+                EdgeItr *it = edg_srd(s, r, d);
+                while (it->hasNext()) {
+                    it->next();
                     cnt++;
                 }
-                releaseItr(fi);
+                delete it;
                 return cnt;
             } else {
-                return getCard(s, r, d);
+                return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
             }
         }
 
@@ -730,7 +738,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s);
             }
             EdgeItr *it = d >= 0 ? edg_sdr(s, r, d) : edg_srd(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_r(const int64_t s, const int64_t r, const int64_t d) {
@@ -738,7 +746,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r);
             }
             EdgeItr *it = d >= 0 ? edg_rds(s, r, d) : edg_rsd(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 1);
         }
 
         DDLEXPORT KeyCardItr *grp_d(const int64_t s, const int64_t r, const int64_t d) {
@@ -746,7 +754,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d);
             }
             EdgeItr *it = r >= 0 ? edg_drs(s, r, d) : edg_dsr(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_sr(const int64_t s, const int64_t r, const int64_t d) {
@@ -754,7 +762,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s, r);
             }
             EdgeItr *it = edg_srd(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 0, 1);
         }
 
         DDLEXPORT KeyCardItr *grp_sd(const int64_t s, const int64_t r, const int64_t d) {
@@ -762,7 +770,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s, d);
             }
             EdgeItr *it = edg_sdr(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 0, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_rs(const int64_t s, const int64_t r, const int64_t d) {
@@ -770,7 +778,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r, s);
             }
             EdgeItr *it = edg_rsd(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 1, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_rd(const int64_t s, const int64_t r, const int64_t d) {
@@ -778,7 +786,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r, d);
             }
             EdgeItr *it = edg_rds(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 1, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_ds(const int64_t s, const int64_t r, const int64_t d) {
@@ -786,7 +794,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d, s);
             }
             EdgeItr *it = edg_dsr(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 2, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_dr(const int64_t s, const int64_t r, const int64_t d) {
@@ -794,7 +802,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d, r);
             }
             EdgeItr *it = edg_drs(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 2, 1);
         }
 
         DDLEXPORT uint64_t cnt_grp_s(const int64_t s, const int64_t r, const int64_t d) {
@@ -802,7 +810,14 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, s);
                 return v.hasNext() ? 1 : 0;
             }
-            return getCard(s, r, d, 0);
+            int p1, p2;
+            if ((s < 0 && r < 0 && d < 0) || sameVar(s, r, d, p1, p2)) {
+                KeyCardItr *it = grp_s(s, r, d);
+                uint64_t card = countKeyCardItr(it);
+                delete it;
+                return card;
+            }
+            return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d, 0);
         }
 
         DDLEXPORT uint64_t cnt_grp_r(const int64_t s, const int64_t r, const int64_t d) {
@@ -810,7 +825,14 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, r);
                 return v.hasNext() ? 1 : 0;
             }
-            return getCard(s, r, d, 1);
+            int p1, p2;
+            if ((s < 0 && r < 0 && d < 0) || sameVar(s, r, d, p1, p2)) {
+                KeyCardItr *it = grp_r(s, r, d);
+                uint64_t card = countKeyCardItr(it);
+                delete it;
+                return card;
+            }
+            return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d, 1);
         }
 
         DDLEXPORT uint64_t cnt_grp_d(const int64_t s, const int64_t r, const int64_t d) {
@@ -818,7 +840,14 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, d);
                 return v.hasNext() ? 1 : 0;
             }
-            return getCard(s, r, d, 2);
+            int p1, p2;
+            if ((s < 0 && r < 0 && d < 0) || sameVar(s, r, d, p1, p2)) {
+                KeyCardItr *it = grp_d(s, r, d);
+                uint64_t card = countKeyCardItr(it);
+                delete it;
+                return card;
+            }
+            return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d, 2);
         }
 
         DDLEXPORT uint64_t cnt_grp_sr(const int64_t s, const int64_t r, const int64_t d) {
@@ -902,6 +931,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -920,6 +950,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -938,6 +969,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -956,6 +988,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -974,6 +1007,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -992,6 +1026,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 5be6864..4ac0b06 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -56,14 +56,14 @@ EmptyItr emptyItr;
 // It cannot happen that for perm = 0, 1, 2: perm+3 exists but perm does not.
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key) {
     currentKey1 = key;
-    currentCard = q->getCard(s, r, d);
+    currentCard = q->countEdges(s, r, d);
     hn = currentCard > 0;
 }
 
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key1, uint64_t key2) {
     currentKey1 = key1;
-    currentKey1 = key2;
-    currentCard = q->getCard(s, r, d);
+    currentKey2 = key2;
+    currentCard = q->countEdges(s, r, d);
     hn = currentCard > 0;
 }
 
-- 
2.43.0


From 01405eafabe1a4eb9bac3e014673d8d921e42238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 021/112] fix: deletions with unknown terms remove other
 triples (stale id in Updater)

---
 src/trident/kb/updater.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/trident/kb/updater.cpp b/src/trident/kb/updater.cpp
index 4b14e1a..72f2f85 100644
--- a/src/trident/kb/updater.cpp
+++ b/src/trident/kb/updater.cpp
@@ -198,7 +198,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         nextID++;
                     } else {
                         itr->nums = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->nums;
@@ -240,7 +239,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->nump = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->nump;
@@ -282,7 +280,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->numo = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->numo;
-- 
2.43.0


From 252c510834742bfcccaaccee8f8e3d4d74b330c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 022/112] fix: terms of small updates: lost by mergeUpdates,
 truncated at the first space

---
 src/trident/kb/dictmgmt.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trident/kb/dictmgmt.cpp b/src/trident/kb/dictmgmt.cpp
index ad3192b..45c91d7 100644
--- a/src/trident/kb/dictmgmt.cpp
+++ b/src/trident/kb/dictmgmt.cpp
@@ -59,11 +59,11 @@ DictMgmt::DictMgmt(Dict mainDict, string dirToStoreGUD, bool hash, string e2r,
             ifstream ifs;
             ifs.open(dirToStoreGUD + DIR_SEP + "gud");
             ifs >> gud_largestID;
-            while (!ifs.eof()) {
-                uint64_t id;
+            uint64_t id;
+            while (ifs >> id) {
+                ifs.get(); //Skip the tab. Terms can contain spaces
                 string term;
-                ifs >> id;
-                ifs >> term;
+                std::getline(ifs, term);
                 if (term.size() > 0) {
                     gud_idtext.insert(make_pair(id, term));
                     gud_textid.insert(make_pair(term, id));
-- 
2.43.0


From c5593f770d6656f37b7ec4faff0bf8a91c978d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 023/112] fix: mergeUpdates duplicates triples deleted and
 added again, and loses the terms of small updates

---
 src/trident/kb/kb.cpp | 92 +++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 52 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 136ddbb..87ddb04 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -666,62 +666,41 @@ void KB::createSingleUpdate(DiffIndex::TypeUpdate type, PairItr *itr, std::strin
         return;
     }
 
-    // Filter: the only deletes that should be left are in the db.
-    if (type == DiffIndex::TypeUpdate::DELETE_df) {
-        std::vector<uint64_t> del_s;
-        std::vector<uint64_t> del_p;
-        std::vector<uint64_t> del_o;
-
-        PairItr *kbitr = q->getIterator(IDX_SPO, -1, -1, -1);
-        if (kbitr->hasNext()) {
-            kbitr->next();
-        } else {
-            q->releaseItr(kbitr);
-            kbitr = NULL;
-        }
-
-        size_t i = 0;
-        while (i != all_s.size()) {
-            //move kbitr to the good position
-            int cmpResult;
-            while (kbitr && (cmpResult = cmp(kbitr, all_s[i], all_p[i], all_o[i])) < 0) {
-                if (kbitr->hasNext()) {
-                    kbitr->next();
-                } else {
-                    q->releaseItr(kbitr);
-                    kbitr = NULL;
-                }
-            }
-            if (kbitr) {
-                //do the check
-                if (cmpResult == 0) {
-                    del_s.push_back(all_s[i]);
-                    del_p.push_back(all_p[i]);
-                    del_o.push_back(all_o[i]);
-                    //Must move also the original iterator
-                    if (kbitr->hasNext()) {
-                        kbitr->next();
-                    } else {
-                        break;
-                    }
-                }
-                i++;
-            } else {
-                break;
+    // Filter: the only deletes that should be left are in the db, and the only additions
+    // are not (a triple of the db can be first deleted and then added again).
+    const bool keepExisting = type == DiffIndex::TypeUpdate::DELETE_df;
+    std::vector<uint64_t> f_s;
+    std::vector<uint64_t> f_p;
+    std::vector<uint64_t> f_o;
+
+    PairItr *kbitr = q->getIterator(IDX_SPO, -1, -1, -1);
+    bool kbvalid = kbitr->hasNext();
+    if (kbvalid) {
+        kbitr->next();
+    }
+    for (size_t i = 0; i < all_s.size(); ++i) {
+        //move kbitr to the good position
+        int cmpResult = 1;
+        while (kbvalid && (cmpResult = cmp(kbitr, all_s[i], all_p[i], all_o[i])) < 0) {
+            kbvalid = kbitr->hasNext();
+            if (kbvalid) {
+                kbitr->next();
             }
         }
-        if (kbitr)
-            q->releaseItr(kbitr);
-
-        if (del_s.size() == 0) {
-            return;
+        const bool exists = kbvalid && cmpResult == 0;
+        if (exists == keepExisting) {
+            f_s.push_back(all_s[i]);
+            f_p.push_back(all_p[i]);
+            f_o.push_back(all_o[i]);
         }
-        Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, del_s, del_p, del_o, true, q, true);
-    } else {
-        Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, all_s, all_p, all_o, true, q, true);
     }
+    q->releaseItr(kbitr);
+
+    if (f_s.size() == 0) {
+        return;
+    }
+    Utils::create_directories(dir);
+    DiffIndex3::createDiffIndex(type, dir, diffDir, f_s, f_p, f_o, true, q, true);
 
     //Write the type of file
     string flagup;
@@ -808,6 +787,15 @@ void KB::mergeUpdates() {
         createNewDict(diffDir + DIR_SEP + "0");
     }
 
+    // Keep also the terms added by small updates
+    std::string oldGUD = oldDiffDir + DIR_SEP + std::string("gud");
+    if (Utils::exists(oldGUD)) {
+        Utils::create_directories(diffDir);
+        ifstream src(oldGUD, ios_base::binary);
+        ofstream dst(diffDir + DIR_SEP + std::string("gud"), ios_base::binary);
+        dst << src.rdbuf();
+    }
+
     std::string old = oldDiffDir + std::string(".old");
 
     if (Utils::exists(old)) {
-- 
2.43.0


From a51bea02d433a7bc1a7a2c5e0e36310fc086edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 024/112] fix: projection and cardinality of full scans over
 updates

---
 include/trident/iterators/compositescanitr.h |  4 ++
 include/trident/iterators/difftermitr.h      |  3 +-
 include/trident/kb/querier.h                 |  7 ++
 src/trident/iterators/compositescanitr.cpp   | 57 ++++++++-------
 src/trident/iterators/difftermitr.cpp        | 14 +++-
 src/trident/iterators/scanitr.cpp            |  4 +-
 src/trident/kb/diffindex1.cpp                |  2 +-
 src/trident/kb/querier.cpp                   | 76 +++++++++++++-------
 8 files changed, 112 insertions(+), 55 deletions(-)

diff --git a/include/trident/iterators/compositescanitr.h b/include/trident/iterators/compositescanitr.h
index eb9e4bb..7a19699 100644
--- a/include/trident/iterators/compositescanitr.h
+++ b/include/trident/iterators/compositescanitr.h
@@ -35,12 +35,16 @@ private:
     Querier *q;
     int64_t v1, v2;
     bool ignseccol;
+    bool started;
     int64_t count;
     int perm;
 
     std::vector<PairItr *> children;
     std::vector<PairItr *> allChildren;
 
+    //Moves all children past the current key and first column. Returns the number of rows
+    int64_t skipCurrentPair();
+
     static bool _sorter_noign(PairItr *i1, PairItr *i2) {
         if (i1->getKey() > i2->getKey()) {
             return true;
diff --git a/include/trident/iterators/difftermitr.h b/include/trident/iterators/difftermitr.h
index dcad442..0aede10 100644
--- a/include/trident/iterators/difftermitr.h
+++ b/include/trident/iterators/difftermitr.h
@@ -46,6 +46,7 @@ private:
 
     int64_t constantvalue;
     uint8_t remaining;
+    int64_t constantcount;
 
 public:
     int getTypeItr() {
@@ -83,7 +84,7 @@ public:
 
     void init(int perm, int64_t nkeys, int64_t nuniquekeys, const char *array, const uint8_t nbytes);
 
-    void init(int perm, int64_t nkeys, int64_t nuniquekeys, const int64_t value);
+    void init(int perm, int64_t nkeys, int64_t nuniquekeys, const int64_t value, const int64_t nelements);
 
     int64_t getCount();
 
diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index a70260a..8c76d11 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -341,6 +341,8 @@ class Querier {
                 int64_t v2,
                 const bool setConstraints);
 
+        PairItr *getDiffScan(DiffIndex *diff, const int perm);
+
         PairItr *summaryDiff(const int perm, DiffIndex::TypeUpdate tp);
 
         bool sameVar(const int64_t s, const int64_t r, const int64_t d, int &p1, int &p2) {
@@ -505,6 +507,11 @@ class Querier {
             return partial[idx];
         }
 
+        //Size of the KB without the updates
+        uint64_t getKBSize() const {
+            return inputSize;
+        }
+
         uint64_t getInputSize() const {
             uint64_t tot = inputSize;
             for (size_t i = 0; i < diffIndices.size(); ++i) {
diff --git a/src/trident/iterators/compositescanitr.cpp b/src/trident/iterators/compositescanitr.cpp
index 61557cd..8492b07 100644
--- a/src/trident/iterators/compositescanitr.cpp
+++ b/src/trident/iterators/compositescanitr.cpp
@@ -47,6 +47,10 @@ bool CompositeScanItr::hasNext() {
 }
 
 void CompositeScanItr::next() {
+    if (!hnc) {
+        hasNext();
+    }
+    started = true;
     setKey(children.back()->getKey());
     v1 = children.back()->getValue1();
     if (!ignseccol) {
@@ -57,22 +61,7 @@ void CompositeScanItr::next() {
             children.pop_back();
         }
     } else {
-        //Fix count and remove more terms
-        count = 0;
-        for (int i = children.size() - 1; i >= 0; i--) {
-            int64_t thiskey = getKey();
-            int64_t scanKey = children[i]->getKey();
-            int64_t scanValue1 = children[i]->getValue1();
-            if (scanKey == thiskey &&
-                    scanValue1 == v1) {
-                count += children[i]->getCount();
-                if (children[i]->hasNext()) {
-                    children[i]->next();
-                } else {
-                    children.erase(children.begin() + i);
-                }
-            }
-        }
+        count = skipCurrentPair();
     }
     hnc = false;
 }
@@ -81,7 +70,11 @@ uint64_t CompositeScanItr::getCardinality() {
     if (ignseccol) {
         return q->getNFirstTablesPerPartition(perm);
     } else {
-        return q->getInputSize();
+        uint64_t card = 0;
+        for (size_t i = 0; i < allChildren.size(); ++i) {
+            card += allChildren[i]->getCardinality();
+        }
+        return card;
     }
 }
 
@@ -116,19 +109,34 @@ void CompositeScanItr::addChild(PairItr *itr) {
     }
 }
 
-void CompositeScanItr::ignoreSecondColumn() {
-    ignseccol = true;
-    for (int i = 0; i < children.size(); ++i) {
-        children[i]->ignoreSecondColumn();
-        if (children[i]->getValue1() == v1 &&
-                children[i]->getKey() == getKey()) {
+int64_t CompositeScanItr::skipCurrentPair() {
+    //The children are not told to ignore the second column, because they are
+    //already one row ahead
+    int64_t skipped = 0;
+    for (int i = children.size() - 1; i >= 0; i--) {
+        bool finished = false;
+        while (!finished && children[i]->getKey() == getKey() &&
+                children[i]->getValue1() == v1) {
+            skipped++;
             if (children[i]->hasNext()) {
                 children[i]->next();
             } else {
-                children.erase(children.begin() + i);
+                finished = true;
             }
         }
+        if (finished) {
+            children.erase(children.begin() + i);
+        }
     }
+    return skipped;
+}
+
+void CompositeScanItr::ignoreSecondColumn() {
+    ignseccol = true;
+    if (started) {
+        count = 1 + skipCurrentPair();
+    }
+    hnc = false;
 }
 
 int64_t CompositeScanItr::getCount() {
@@ -141,6 +149,7 @@ void CompositeScanItr::init(int perm) {
     hn = false;
     v1 = v2 = 0;
     ignseccol = false;
+    started = false;
     count = 1;
     this->perm = perm;
 }
diff --git a/src/trident/iterators/difftermitr.cpp b/src/trident/iterators/difftermitr.cpp
index b4c95c4..7d8640c 100644
--- a/src/trident/iterators/difftermitr.cpp
+++ b/src/trident/iterators/difftermitr.cpp
@@ -76,7 +76,15 @@ void DiffTermItr::gotoKey(int64_t keyToSearch) {
 }
 
 int64_t DiffTermItr::getCount() {
-    return values.getNElements(perm);
+    switch (mode) {
+    case 0:
+        return values.getNElements(perm);
+    case 1: //Every key in the array belongs to one triple
+        return 1;
+    case 2:
+        return constantcount;
+    }
+    throw 10;
 }
 
 void DiffTermItr::init(int perm, int64_t nkeys, int64_t nuniquekeys, TreeItr * itr) {
@@ -103,7 +111,8 @@ void DiffTermItr::init(int perm, int64_t nkeys, int64_t nuniquekeys,
     this->nbytes = nbytes;
 }
 
-void DiffTermItr::init(int perm, int64_t nkeys, int64_t nuniquekeys, const int64_t value) {
+void DiffTermItr::init(int perm, int64_t nkeys, int64_t nuniquekeys, const int64_t value,
+          const int64_t nelements) {
     initializeConstraints();
     this->perm = perm;
     this->nkeys = nkeys;
@@ -111,5 +120,6 @@ void DiffTermItr::init(int perm, int64_t nkeys, int64_t nuniquekeys, const int64
 
     this->mode = 2;
     this->constantvalue = value;
+    this->constantcount = nelements;
     this->remaining = 1;
 }
diff --git a/src/trident/iterators/scanitr.cpp b/src/trident/iterators/scanitr.cpp
index 77f49c4..8e025b8 100644
--- a/src/trident/iterators/scanitr.cpp
+++ b/src/trident/iterators/scanitr.cpp
@@ -60,7 +60,7 @@ uint64_t ScanItr::getCardinality() {
     if (ignseccolumn) {
         return q->getNFirstTablesPerPartition(idx);
     } else {
-        return q->getInputSize();
+        return q->getKBSize();
     }
 }
 
@@ -68,7 +68,7 @@ uint64_t ScanItr::estCardinality() {
     if (ignseccolumn) {
         return q->getNFirstTablesPerPartition(idx);
     } else {
-        return q->getInputSize();
+        return q->getKBSize();
     }
 }
 
diff --git a/src/trident/kb/diffindex1.cpp b/src/trident/kb/diffindex1.cpp
index 3f698ca..22f8400 100644
--- a/src/trident/kb/diffindex1.cpp
+++ b/src/trident/kb/diffindex1.cpp
@@ -263,7 +263,7 @@ void DiffIndex1::getTermListItr(int idx, DiffTermItr *itr) {
     if (posFirstElement == posValues) {
         itr->init(idx, nkeys[idx], nuniquekeys[idx], values->getBuffer(), nbytes);
     } else {
-        itr->init(idx, nkeys[idx], nuniquekeys[idx], triple[posFirstElement]);
+        itr->init(idx, nkeys[idx], nuniquekeys[idx], triple[posFirstElement], size);
     }
 }
 
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 4ac0b06..9567a7e 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -131,6 +131,23 @@ char Querier::getStrategy(const int idx, const int64_t v) {
   return currentValue.getNElements(idx);
   }*/
 
+//Counts the distinct (key, first column) pairs. The iterators that combine the
+//KB with the updates cannot derive this number from their parts.
+static uint64_t countFirstColumns(PairItr *itr) {
+    uint64_t count = 0;
+    int64_t prevkey = -1;
+    int64_t prev = -1;
+    while (itr->hasNext()) {
+        itr->next();
+        if (itr->getKey() != prevkey || itr->getValue1() != prev) {
+            prevkey = itr->getKey();
+            prev = itr->getValue1();
+            count++;
+        }
+    }
+    return count;
+}
+
 uint64_t Querier::getCardOnIndex(const int idx, const int64_t first, const int64_t second,
         const int64_t third, bool skipLast) {
     //Check if first element is variable
@@ -160,8 +177,13 @@ uint64_t Querier::getCardOnIndex(const int idx, const int64_t first, const int64
         if (third < 0) countUnbound++;
         if (countUnbound >= 2) {
             if (skipLast) {
-                itr->ignoreSecondColumn();
-                uint64_t card = itr->getCardinality();
+                uint64_t card;
+                if (diffIndices.empty()) {
+                    itr->ignoreSecondColumn();
+                    card = itr->getCardinality();
+                } else {
+                    card = countFirstColumns(itr);
+                }
                 releaseItr(itr);
                 return card;
             } else {
@@ -259,8 +281,13 @@ int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o, uint
                 itr = getIterator(idx2, s, p, o);
             }
 
-            itr->ignoreSecondColumn();
-            int64_t nElements = itr->getCardinality();
+            int64_t nElements;
+            if (diffIndices.empty()) {
+                itr->ignoreSecondColumn();
+                nElements = itr->getCardinality();
+            } else {
+                nElements = countFirstColumns(itr);
+            }
             releaseItr(itr);
             return nElements;
         } else {
@@ -772,7 +799,7 @@ PairItr *Querier::getTermList(const int perm) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        {
             if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
                 DiffTermItr *itr = factory10.get();
                 diffIndices[i]->getTermListItr(perm, itr);
@@ -787,7 +814,7 @@ PairItr *Querier::getTermList(const int perm) {
                 }
             } else {
                 DiffTermItr *itr = factory10.get();
-                diffIndices[i]->getTermListItr(IDX_SPO, itr);
+                diffIndices[i]->getTermListItr(perm, itr);
                 RmCompositeTermItr *newitr = factory15.get();
                 newitr->init(finalItr, itr);
                 finalItr = newitr;
@@ -826,18 +853,28 @@ PairItr *Querier::summaryRmDiff() {
     return newitr;
 }
 
+PairItr *Querier::getDiffScan(DiffIndex *diff, const int perm) {
+    if (diff->getClass() == DiffIndex::DIFF3) {
+        DiffScanItr *itr = factory11.get();
+        itr->setQuerier(this);
+        return ((DiffIndex3*)diff)->getScan(perm, itr);
+    } else {
+        //Diff1 update getIterator() method can handle scans
+        int64_t nfirstterms = 0;
+        return diff->getIterator(perm, -1, -1, -1, nfirstterms);
+    }
+}
+
 PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
 
     PairItr *finalItr = NULL;
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        {
             LOG(DEBUGL) << "diffIndices " << i;
             if (diffIndices[i]->getType() == tp) {
-                DiffScanItr *itr = factory11.get();
-                itr->setQuerier(this);
-                PairItr *it = ((DiffIndex3*)diffIndices[i].get())->getScan(perm, itr);
+                PairItr *it = getDiffScan(diffIndices[i].get(), perm);
                 LOG(DEBUGL) << "Adding iterator, hasNext = " << it->hasNext();
                 if (finalItr == NULL) {
                     finalItr = it;
@@ -850,15 +887,13 @@ PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
                     LOG(DEBUGL) << "CompositeScanItr, hasNext = " << newitr->hasNext();
                     finalItr = newitr;
                 } else {
-                    ((CompositeScanItr*)finalItr)->addChild(itr);
+                    ((CompositeScanItr*)finalItr)->addChild(it);
                 }
             } else {
                 if (finalItr == NULL) {
                     continue;
                 }
-                DiffScanItr *itr = factory11.get();
-                itr->setQuerier(this);
-                PairItr *it = ((DiffIndex3*)diffIndices[i].get())->getScan(perm, itr);
+                PairItr *it = getDiffScan(diffIndices[i].get(), perm);
                 RmItr *newitr = factory14.get();
                 newitr->init(finalItr, it, 0);
                 finalItr = newitr;
@@ -1091,9 +1126,7 @@ PairItr *Querier::getIterator(const int idx, const int64_t s, const int64_t p, c
                     diffItr = diffIndices[i]->getIterator(idx, first, second,
                             third, delnfirstterms);
                 } else {
-                    DiffScanItr *newitr = factory11.get();
-                    newitr->setQuerier(this);
-                    diffItr = ((DiffIndex3*)diffIndices[i].get())->getScan(idx, newitr);
+                    diffItr = getDiffScan(diffIndices[i].get(), idx);
                 }
                 if (diffItr->hasNext()) {
                     if (out->hasNext()) {
@@ -1152,14 +1185,7 @@ PairItr *Querier::getIterator(const int idx, const int64_t s, const int64_t p, c
                         }
                     }
                 } else {
-                    if (diffIndices[i]->getClass() == DiffIndex::DIFF3) {
-                        DiffScanItr *newitr = factory11.get();
-                        newitr->setQuerier(this);
-                        diffItr = ((DiffIndex3*)diffIndices[i].get())->getScan(idx, newitr);
-                    } else {
-                        //Diff1 update getIterator() method can handle scans
-                        diffItr = diffIndices[i]->getIterator(idx, first, second, third, nfirstterms);
-                    }
+                    diffItr = getDiffScan(diffIndices[i].get(), idx);
                 }
                 if (diffItr->hasNext()) {
                     iterators.push_back(diffItr);
-- 
2.43.0


From 5a26f565623dd87339b18d27140f5da8a83001e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 025/112] fix: RmItr and CompositeItr: mark/reset restore the
 whole row, ignoreSecondColumn before the first row

---
 include/trident/iterators/compositeitr.h | 10 ++++++++--
 include/trident/iterators/rmitr.h        |  7 ++-----
 src/trident/iterators/rmitr.cpp          | 14 ++++++++------
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/trident/iterators/compositeitr.h b/include/trident/iterators/compositeitr.h
index 3f76fbe..05368d4 100644
--- a/include/trident/iterators/compositeitr.h
+++ b/include/trident/iterators/compositeitr.h
@@ -50,6 +50,8 @@ class CompositeItr: public PairItr {
         int64_t savedv1, savedv2, savedcurrentCount;
         int savedlastIdx;
         bool savedhn, savedhnc;
+        bool savedisSorted, saveddecreasedKey;
+        std::vector<PairItr*> savedchildren;
 
         void rearrangeChildren();
 
@@ -92,7 +94,9 @@ class CompositeItr: public PairItr {
             savedlastIdx = lastIdx;
             savedhn = hn;
             savedhnc = hnc;
-            kbitr->mark();
+            savedchildren = children; //next() changes their order
+            savedisSorted = isSorted;
+            saveddecreasedKey = decreasedKey;
             for (int64_t i = children.size() - 1; i >= 0; i--) {
                 children[i]->mark();
             }
@@ -106,7 +110,9 @@ class CompositeItr: public PairItr {
             lastIdx = savedlastIdx;
             hn = savedhn;
             hnc = savedhnc;
-            kbitr->reset(r);
+            children = savedchildren;
+            isSorted = savedisSorted;
+            decreasedKey = saveddecreasedKey;
             for (int64_t i = children.size() - 1; i >= 0; i--) {
                 children[i]->reset(r);
             }
diff --git a/include/trident/iterators/rmitr.h b/include/trident/iterators/rmitr.h
index b130215..ae0954d 100644
--- a/include/trident/iterators/rmitr.h
+++ b/include/trident/iterators/rmitr.h
@@ -72,11 +72,8 @@ public:
     void reset(const char i) {
         rmitrvalid = savedrmitrvalid;
 	hnc = false;
-	if (i == 0) {
-	    v1 = savedv1;
-	} else {
-	    v2 = savedv2;
-	}
+	v1 = savedv1;
+	v2 = savedv2;
 	curCount = savedcurCount;
 	nextCount = savednextCount;
 	itr->reset(i);
diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 813d234..33579c6 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -74,12 +74,12 @@ bool RmItr::hasNext() {
                 }
             }
             if (cmpres < 0) {//No more triples to remove
-                nextCount = itr->getCount();
+                nextCount = noseccol ? itr->getCount() : 1;
                 rmitrvalid = false;
                 valid = true;
                 break;
             } else if (cmpres > 0) { //The triple is not marked to be removed
-                nextCount = itr->getCount();
+                nextCount = noseccol ? itr->getCount() : 1;
                 valid = true;
                 break;
             } else {
@@ -94,7 +94,7 @@ bool RmItr::hasNext() {
                 }
             }
         } else {
-            nextCount = itr->getCount();
+            nextCount = noseccol ? itr->getCount() : 1;
             valid = true;
             break;
         }
@@ -176,9 +176,11 @@ void RmItr::ignoreSecondColumn() {
     rmitr->ignoreSecondColumn();
     noseccol = true;
     if (v1 == -1) {
-        nextCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
-            nextCount -= rmitr->getCount();
+        if (hnc && hn) { //Otherwise the iterator is not on a row yet
+            nextCount = noseccol ? itr->getCount() : 1;
+            if (rmitr->getValue1() == itr->getValue1())
+                nextCount -= rmitr->getCount();
+        }
     } else {
         curCount = itr->getCount();
         if (rmitr->getValue1() == itr->getValue1())
-- 
2.43.0


From c7c46ca542d982ef7145be271102b6659e1e96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 026/112] fix: TVec::Pack of an empty vector keeps its
 capacity, the next Add writes through a null pointer

---
 snap/glib-core/ds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index f02473c..fc72b80 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -915,7 +915,7 @@ template <class TVal, class TSizeTy>
 void TVec<TVal, TSizeTy>::Pack(){
   IAssertR(MxVals!=-1, "This vector was obtained from TVecPool. Such vectors cannot change its size!");
   if (Vals==0){
-    if (ValT!=NULL){delete[] ValT;} ValT=NULL;
+    if (ValT!=NULL){delete[] ValT;} ValT=NULL; MxVals=0;
   } else
     if (Vals<MxVals){
       MxVals=Vals;
-- 
2.43.0


From ba9dfde8e33d08a26e485e5bf9ff10f24ff26ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 027/112] fix: TNEGraph::DelEdge(src,dst) leaves edges behind
 or loops, TBPGraph::IsOk is always false, its edge iterator skips edges

---
 snap/snap-core/graph.cpp | 6 ++----
 snap/snap-core/graph.h   | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/snap/snap-core/graph.cpp b/snap/snap-core/graph.cpp
index e6132dd..040d5e0 100644
--- a/snap/snap-core/graph.cpp
+++ b/snap/snap-core/graph.cpp
@@ -538,10 +538,8 @@ void TNEGraph::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir)
   int EId;
   IAssert(IsEdge(SrcNId, DstNId, EId, IsDir)); // there is at least one edge
   while (IsEdge(SrcNId, DstNId, EId, IsDir)) {
-    GetNode(SrcNId).OutEIdV.DelIfIn(EId);
-    GetNode(DstNId).InEIdV.DelIfIn(EId);
+    DelEdge(EId);
   }
-  EdgeH.DelKey(EId);
 }
 
 bool TNEGraph::IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir) const {
@@ -801,7 +799,7 @@ void TBPGraph::Defrag(const bool& OnlyNodeLinks) {
 }
 
 bool TBPGraph::IsOk(const bool& ThrowExcept) const {
-  bool RetVal = false;
+  bool RetVal = true;
   // edge lists are sorted
   for (int n = LeftH.FFirstKeyId(); LeftH.FNextKeyId(n); ) {
     if (! LeftH[n].NIdV.IsSorted()) {
diff --git a/snap/snap-core/graph.h b/snap/snap-core/graph.h
index b63506f..223753a 100644
--- a/snap/snap-core/graph.h
+++ b/snap/snap-core/graph.h
@@ -857,7 +857,7 @@ public:
   /// Tests whether an edge between node IDs LeftNId and RightNId exists in the graph.
   bool IsEdge(const int& LeftNId, const int& RightNId) const;
   /// Returns an iterator referring to the first edge in the graph.
-  TEdgeI BegEI() const { TNodeI NI=BegLNI(); while (NI<EndLNI() && (NI.GetOutDeg()==0 || NI.GetId()>NI.GetOutNId(0))) { NI++; } return TEdgeI(NI, EndLNI()); }
+  TEdgeI BegEI() const { TNodeI NI=BegLNI(); while (NI<EndLNI() && NI.GetOutDeg()==0) { NI++; } return TEdgeI(NI, EndLNI()); }
   /// Returns an iterator referring to the past-the-end edge in the graph.
   TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
   /// Not supported/implemented!
-- 
2.43.0


From 778f9d567cbb4b2a6d218fc0791df311db8520f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 028/112] fix: attributes of deleted nodes and edges survive,
 Defrag and DelAttr misalign the attributes of TNEANet

---
 snap/snap-core/network.cpp | 64 +++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index 3f61469..0d99d17 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -475,6 +475,7 @@ void TNEANet::DelNode(const int& NId) {
       TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
       IntVecV[EdgeH.GetKeyId(EId)] = TIntV();
     }
+    SAttrE.DelSAttrId(EId);
     EdgeH.DelKey(EId);
   }
   for (int in = 0; in < Node.GetInDeg(); in++) {
@@ -499,6 +500,7 @@ void TNEANet::DelNode(const int& NId) {
       TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
       IntVecV[EdgeH.GetKeyId(EId)] = TIntV();
     }
+    SAttrE.DelSAttrId(EId);
     EdgeH.DelKey(EId);
   }
 
@@ -552,7 +554,12 @@ int TNEANet::AddEdge(const int& SrcNId, const int& DstNId, int EId) {
 
   for (i = 0; i < VecOfIntVecVecsE.Len(); i++) {
     TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
-    IntVecV.Ins(EdgeH.GetKeyId(EId), TIntV());
+    int KeyId = EdgeH.GetKeyId(EId);
+    if (IntVecV.Len() > KeyId) {
+      IntVecV[KeyId] = TIntV();
+    } else {
+      IntVecV.Ins(KeyId, TIntV());
+    }
   }
 
   for (i = 0; i < VecOfStrVecsE.Len(); i++) {
@@ -615,6 +622,11 @@ void TNEANet::DelEdge(const int& EId) {
     FltVec[EdgeH.GetKeyId(EId)] = TFlt::Mn;
   }
 
+  for (i = 0; i < VecOfIntVecVecsE.Len(); i++) {
+    TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
+    IntVecV[EdgeH.GetKeyId(EId)] = TIntV();
+  }
+
   EdgeH.DelKey(EId);
 }
 
@@ -664,13 +676,37 @@ void TNEANet::GetEIdV(TIntV& EIdV) const {
   }
 }
 
+// keep, in every attribute column, the values at positions KeyIdV (in this order)
+template <class TColV>
+static void DefragAttrCols(TColV& ColV, const TIntV& KeyIdV) {
+  for (int c = 0; c < ColV.Len(); c++) {
+    for (int i = 0; i < KeyIdV.Len(); i++) {
+      if (KeyIdV[i] != i) { ColV[c][i] = ColV[c][KeyIdV[i]]; }
+    }
+    ColV[c].Trunc(KeyIdV.Len());
+  }
+}
+
 void TNEANet::Defrag(const bool& OnlyNodeLinks) {
   for (int kid = NodeH.FFirstKeyId(); NodeH.FNextKeyId(kid); ) {
     TNode& Node = NodeH[kid];
     Node.InEIdV.Pack();  Node.OutEIdV.Pack();
   }
-  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) { NodeH.Defrag(); }
-  if (! OnlyNodeLinks && ! EdgeH.IsKeyIdEqKeyN()) { EdgeH.Defrag(); }
+  // attribute values are stored by the key ids of the hash tables: move them to the new key ids
+  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) {
+    TIntV KeyIdV;
+    for (int kid = NodeH.FFirstKeyId(); NodeH.FNextKeyId(kid); ) { KeyIdV.Add(kid); }
+    DefragAttrCols(VecOfIntVecsN, KeyIdV);  DefragAttrCols(VecOfStrVecsN, KeyIdV);
+    DefragAttrCols(VecOfFltVecsN, KeyIdV);  DefragAttrCols(VecOfIntVecVecsN, KeyIdV);
+    NodeH.Defrag();
+  }
+  if (! OnlyNodeLinks && ! EdgeH.IsKeyIdEqKeyN()) {
+    TIntV KeyIdV;
+    for (int kid = EdgeH.FFirstKeyId(); EdgeH.FNextKeyId(kid); ) { KeyIdV.Add(kid); }
+    DefragAttrCols(VecOfIntVecsE, KeyIdV);  DefragAttrCols(VecOfStrVecsE, KeyIdV);
+    DefragAttrCols(VecOfFltVecsE, KeyIdV);  DefragAttrCols(VecOfIntVecVecsE, KeyIdV);
+    EdgeH.Defrag();
+  }
 }
 
 bool TNEANet::IsOk(const bool& ThrowExcept) const {
@@ -1283,22 +1319,22 @@ int TNEANet::AddFltAttrE(const TStr& attr, TFlt defaultValue) {
 int TNEANet::DelAttrN(const TStr& attr) {
   TInt vecType = KeyToIndexTypeN(attr).Val1;
   if (vecType == IntType) {
-    VecOfIntVecsN[KeyToIndexTypeN.GetDat(attr).Val2] = TVec<TInt>();
+    VecOfIntVecsN[KeyToIndexTypeN.GetDat(attr).Val2].PutAll(TInt::Mn);
     if (IntDefaultsN.IsKey(attr)) {
       IntDefaultsN.DelKey(attr);
     }
   } else if (vecType == StrType) {
-    VecOfStrVecsN[KeyToIndexTypeN.GetDat(attr).Val2] = TVec<TStr>();  
+    VecOfStrVecsN[KeyToIndexTypeN.GetDat(attr).Val2].PutAll(TStr::GetNullStr());
     if (StrDefaultsN.IsKey(attr)) {
       StrDefaultsN.DelKey(attr);
     }
   } else if (vecType == FltType) {
-    VecOfFltVecsN[KeyToIndexTypeN.GetDat(attr).Val2] = TVec<TFlt>();
+    VecOfFltVecsN[KeyToIndexTypeN.GetDat(attr).Val2].PutAll(TFlt::Mn);
     if (FltDefaultsN.IsKey(attr)) {
       FltDefaultsN.DelKey(attr);
     }
   } else if (vecType == IntVType) {
-    VecOfIntVecVecsN[KeyToIndexTypeN.GetDat(attr).Val2] = TVec<TIntV>();
+    VecOfIntVecVecsN[KeyToIndexTypeN.GetDat(attr).Val2].PutAll(TIntV());
   } else {
     return -1;
   }
@@ -1309,20 +1345,22 @@ int TNEANet::DelAttrN(const TStr& attr) {
 int TNEANet::DelAttrE(const TStr& attr) {
   TInt vecType = KeyToIndexTypeE(attr).Val1;
   if (vecType == IntType) {
-    VecOfIntVecsE[KeyToIndexTypeE.GetDat(attr).Val2] = TVec<TInt>();
+    VecOfIntVecsE[KeyToIndexTypeE.GetDat(attr).Val2].PutAll(TInt::Mn);
     if (IntDefaultsE.IsKey(attr)) {
       IntDefaultsE.DelKey(attr);
     }
   } else if (vecType == StrType) {
-    VecOfStrVecsE[KeyToIndexTypeE.GetDat(attr).Val2] = TVec<TStr>();
+    VecOfStrVecsE[KeyToIndexTypeE.GetDat(attr).Val2].PutAll(TStr::GetNullStr());
     if (StrDefaultsE.IsKey(attr)) {
       StrDefaultsE.DelKey(attr);
     }  
   } else if (vecType == FltType) {
-    VecOfFltVecsE[KeyToIndexTypeE.GetDat(attr).Val2] = TVec<TFlt>();
+    VecOfFltVecsE[KeyToIndexTypeE.GetDat(attr).Val2].PutAll(TFlt::Mn);
     if (FltDefaultsE.IsKey(attr)) {
       FltDefaultsE.DelKey(attr);
     }
+  } else if (vecType == IntVType) {
+    VecOfIntVecVecsE[KeyToIndexTypeE.GetDat(attr).Val2].PutAll(TIntV());
   } else {
     return -1;
   }
@@ -1720,6 +1758,7 @@ void TUndirNet::DelNode(const int& NId) {
   NEdges -= Node.GetDeg();
   for (int e = 0; e < Node.GetDeg(); e++) {
     const int nbr = Node.GetNbrNId(e);
+    SAttrE.DelSAttrId(OrderEdgeNodes(NId, nbr));
     if (nbr == NId) { continue; }
     TNode& N = GetNode(nbr);
     const int n = N.NIdV.SearchBin(NId);
@@ -1754,7 +1793,7 @@ void TUndirNet::DelEdge(const int& SrcNId, const int& DstNId) {
   IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
   { TNode& N = GetNode(SrcNId);
   const int n = N.NIdV.SearchBin(DstNId);
-  TIntPr Id(SrcNId, DstNId);
+  TIntPr Id = OrderEdgeNodes(SrcNId, DstNId);
   SAttrE.DelSAttrId(Id);
   if (n!= -1) { N.NIdV.Del(n);  NEdges--; } }
   if (SrcNId != DstNId) { // not a self edge
@@ -2196,6 +2235,7 @@ void TDirNet::DelNode(const int& NId) {
   SAttrN.DelSAttrId(Id);
   for (int e = 0; e < Node.GetOutDeg(); e++) {
   const int nbr = Node.GetOutNId(e);
+  SAttrE.DelSAttrId(TIntPr(NId, nbr));
   if (nbr == NId) { continue; }
     TNode& N = GetNode(nbr);
     const int n = N.InNIdV.SearchBin(NId);
@@ -2203,6 +2243,7 @@ void TDirNet::DelNode(const int& NId) {
   }
   for (int e = 0; e < Node.GetInDeg(); e++) {
   const int nbr = Node.GetInNId(e);
+  SAttrE.DelSAttrId(TIntPr(nbr, NId));
   if (nbr == NId) { continue; }
     TNode& N = GetNode(nbr);
     const int n = N.OutNIdV.SearchBin(NId);
@@ -2239,6 +2280,7 @@ void TDirNet::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
   const int n = N.InNIdV.SearchBin(SrcNId);
   if (n!= -1) { N.InNIdV.Del(n); } }
   if (! IsDir) {
+    SAttrE.DelSAttrId(TIntPr(DstNId, SrcNId));
     { TNode& N = GetNode(SrcNId);
     const int n = N.InNIdV.SearchBin(DstNId);
     if (n!= -1) { N.InNIdV.Del(n); } }
-- 
2.43.0


From 3a595280e332b3cb994e376bed5710e3894b22bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 029/112] fix: articulation points are wrong in every connected
 component but the first

---
 snap/snap-core/cncom.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/cncom.h b/snap/snap-core/cncom.h
index 5b10405..aab88b8 100644
--- a/snap/snap-core/cncom.h
+++ b/snap/snap-core/cncom.h
@@ -145,8 +145,9 @@ public:
   void FinishNode(const int& NId) {
     if (! ParentH.IsKey(NId)) { return; }  const int Prn = ParentH.GetDat(NId);
     VnLowH.GetDat(Prn).Val2 = TMath::Mn(VnLowH.GetDat(Prn).Val2, VnLowH.GetDat(NId).Val2);
-    if (VnLowH.GetDat(Prn).Val1==1 && VnLowH.GetDat(NId).Val1!=2) { ArtSet.AddKey(Prn); }
-    if (VnLowH.GetDat(Prn).Val1!=1 && VnLowH.GetDat(NId).Val2>=VnLowH.GetDat(Prn).Val1) { ArtSet.AddKey(Prn); } }
+    const bool IsRoot = ! ParentH.IsKey(Prn); // the start of the search in its component
+    if (IsRoot && VnLowH.GetDat(NId).Val1!=VnLowH.GetDat(Prn).Val1+1) { ArtSet.AddKey(Prn); }
+    if (! IsRoot && VnLowH.GetDat(NId).Val2>=VnLowH.GetDat(Prn).Val1) { ArtSet.AddKey(Prn); } }
   void ExamineEdge(const int& NId1, const int& NId2) { }
   void TreeEdge(const int& NId1, const int& NId2) { ParentH.AddDat(NId2, NId1); }
   void BackEdge(const int& NId1, const int& NId2) {
-- 
2.43.0


From beef400ae511176418d48b41102038b6179ff9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 030/112] fix: IsConnected/IsWeaklyConn report a single node
 without self loop as not connected

---
 snap/snap-core/cncom.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/cncom.h b/snap/snap-core/cncom.h
index aab88b8..2f99a7e 100644
--- a/snap/snap-core/cncom.h
+++ b/snap/snap-core/cncom.h
@@ -283,6 +283,7 @@ bool IsWeaklyConn(const PGraph& Graph) {
   typename PGraph::TObj::TNodeI NI;
   // the rest of the nodes
   NIdQ.Push(Graph->BegNI().GetId());
+  VisitedNId.AddKey(NIdQ.Top());
   while (! NIdQ.Empty()) {
     const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
     if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
-- 
2.43.0


From 4fa60a225cce5cdcaa2fa1c986dd07df58a826d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:46 +0000
Subject: [PATCH 031/112] fix: triads, clustering and triangle counts with self
 edges and in multigraphs

---
 snap/snap-core/triad.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/triad.h b/snap/snap-core/triad.h
index 13e9d28..a3ddc9f 100644
--- a/snap/snap-core/triad.h
+++ b/snap/snap-core/triad.h
@@ -4,7 +4,8 @@
 #include <iostream>
 #include <vector>
 #include <random>
-#include <set>
+#include <set>
+#include <algorithm>
 
 namespace TSnap {
 
@@ -122,6 +123,9 @@ namespace TSnap {
             }
             k += 1;
         }
+        if (HasGraphFlag(typename PGraph::TObj, gfMultiGraph)) {
+            NeighbourV.Merge(); // multigraphs order the neighbors by edge id
+        }
     }
 
 
@@ -357,7 +361,9 @@ namespace TSnap {
                     NbrV[NId].Reserve(NI.GetOutDeg());
                     NbrV[NId].Reduce(0);
                     for (int i = 0; i < NI.GetOutDeg(); i++) {
-                        NbrV[NId].Add(NI.GetOutNId(i));
+                        if (NI.GetOutNId(i) != NId) { // exclude self edges
+                            NbrV[NId].Add(NI.GetOutNId(i));
+                        }
                     }
                 }
             }
@@ -689,6 +695,9 @@ namespace TSnap {
                 }
                 k += 1;
             }
+            if (HasGraphFlag(typename PGraph::TObj, gfMultiGraph)) {
+                NeighbourV.Merge(); // multigraphs order the neighbors by edge id
+            }
         }
 
         // Count the number of edges that participate in at least one triad
@@ -711,14 +720,15 @@ namespace TSnap {
                     }
                     for (int e = 0; e < NI.GetOutDeg(); e++) {
                         if (!IsDir && NI.GetId()<NI.GetOutNId(e)) { continue; } // for undirected graphs count each edge only once
+                        if (NI.GetOutNId(e) == NI.GetId()) { continue; } // self edges do not participate in triads
                         const typename PGraph::TObj::TNodeI SrcNode = Graph->GetNI(NI.GetOutNId(e));
                         bool Triad=false;
                         for (int e1 = 0; e1 < SrcNode.GetOutDeg(); e1++) {
-                            if (NbrH.IsKey(SrcNode.GetOutNId(e1))) { Triad=true; break; }
+                            if (SrcNode.GetOutNId(e1) != SrcNode.GetId() && NbrH.IsKey(SrcNode.GetOutNId(e1))) { Triad=true; break; }
                         }
                         if (IsDir && ! Triad) {
                             for (int e1 = 0; e1 < SrcNode.GetInDeg(); e1++) {
-                                if (NbrH.IsKey(SrcNode.GetInNId(e1))) { Triad=true; break; }
+                                if (SrcNode.GetInNId(e1) != SrcNode.GetId() && NbrH.IsKey(SrcNode.GetInNId(e1))) { Triad=true; break; }
                             }
                         }
                         if (Triad) { TriadEdges++; }
@@ -953,6 +963,9 @@ namespace TSnap {
                     }
                     k += 1;
                 }
+                if (HasGraphFlag(typename PGraph::TObj, gfMultiGraph)) {
+                    NbrV.Merge(); // multigraphs order the neighbors by edge id
+                }
             }
 
         template <class PGraph>
@@ -1015,6 +1028,11 @@ namespace TSnap {
                     }
                     k += 1;
                 }
+                if (HasGraphFlag(typename PGraph::TObj, gfMultiGraph)) {
+                    // multigraphs order the neighbors by edge id
+                    std::sort(NbrV.begin(), NbrV.end());
+                    NbrV.erase(std::unique(NbrV.begin(), NbrV.end()), NbrV.end());
+                }
             }
 
         }; // mamespace TSnap
-- 
2.43.0


From 6ea60d5ca399f545643e1d0d241e9e8ce56213f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:31 +0000
Subject: [PATCH 032/112] fix: weighted shortest paths looked distances up by
 hash slot instead of node id

---
 snap/snap-core/centr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 90f32b9..989edbd 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -687,8 +687,8 @@ namespace TSnap {
         int min_index = 0;
         for (int i = 0; i < Frontier.Len(); i++) {
             int NId = Frontier.GetVal(i);
-            if (NIdDistH[NId] < minimum) {
-                minimum = NIdDistH[NId];
+            if (NIdDistH.GetDat(NId) < minimum) {
+                minimum = NIdDistH.GetDat(NId);
                 min_index = i;
             }
         }
@@ -714,8 +714,8 @@ namespace TSnap {
                     NIdDistH.AddDat(DstNId, NIdDistH.GetDat(NId) + Attr[EId]);
                     frontier.Add(DstNId);
                 } else {
-                    if (NIdDistH[DstNId] > NIdDistH.GetDat(NId) + Attr[EId]) {
-                        NIdDistH[DstNId] = NIdDistH.GetDat(NId) + Attr[EId];
+                    if (NIdDistH.GetDat(DstNId) > NIdDistH.GetDat(NId) + Attr[EId]) {
+                        NIdDistH.GetDat(DstNId) = NIdDistH.GetDat(NId) + Attr[EId];
                     }
                 }
             }
-- 
2.43.0


From ed8d8bd34e90407b887b84c35439caa32bcfc384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:06 +0000
Subject: [PATCH 033/112] fix: the greedy group choice ignored node 0 or looped
 forever

---
 snap/snap-core/centr.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 989edbd..d195b31 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -177,7 +177,7 @@ namespace TSnap {
         TIntH NNodes; // container of neighbouring nodes
         TIntH Nodes; // nodes sorted by vd
         double gc = 0, gc0 = 0;
-        int addId = 0, addIdPrev = 0;
+        int addId = -1, addIdPrev = -1;
 
         for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
             Nodes.AddDat(NI.GetId(),NI.GetDeg());
@@ -225,7 +225,7 @@ namespace TSnap {
         TIntH NNodes;
         TIntH Nodes;
         double gc = 0, gc0 = 0;
-        int addId = 0, addIdPrev = 0;
+        int addId = -1, addIdPrev = -1;
 
         // put nodes in the container and sort them by vertex degree
         for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
@@ -257,6 +257,8 @@ namespace TSnap {
                 }
                 addIdPrev = addId;
                 Nodes.DelKey(addId);
+            } else {
+                br = k;
             }
         }
 
@@ -270,7 +272,7 @@ namespace TSnap {
         TStr NNodes; // container of neighbouring nodes
         TIntH Nodes; // nodes sorted by vd
         double gc = 0, gc0 = 0;
-        int addId = 0, addIdPrev=0;
+        int addId = -1, addIdPrev=-1;
 
         for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
             Nodes.AddDat(NI.GetId(),NI.GetDeg());
@@ -326,7 +328,7 @@ namespace TSnap {
         int NNodes_br = 0;
         TIntH Nodes; // nodes sorted by vd
         double gc = 0, gc0 = 0;
-        int addId = 0, addIdPrev = 0;
+        int addId = -1, addIdPrev = -1;
 
         for (TUNGraph::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++){
             Nodes.AddDat(NI.GetId(),NI.GetDeg());
-- 
2.43.0


From 02feb0181efa8640168727ec5ba980eec29948f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:47 +0000
Subject: [PATCH 034/112] fix: weighted PageRank with parallel edges, parallel
 weighted PageRank never advanced beyond its first step

---
 snap/snap-core/centr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index d195b31..ab6bf40 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -419,7 +419,7 @@ namespace TSnap {
                 for (int e = 0; e < NI.GetInDeg(); e++) {
                     const int InNId = NI.GetInNId(e);
                     const TFlt OutWeight = OutWeights[InNId];
-                    int EId = Graph->GetEId(InNId, NI.GetId());
+                    const int EId = NI.GetInEId(e);
                     const TFlt Weight = Weights[Graph->GetFltKeyIdE(EId)];
                     if (OutWeight > 0) {
                         TmpV[j] += PRankH.GetDat(InNId) * Weight / OutWeight; }
@@ -470,7 +470,7 @@ namespace TSnap {
             TNEANet::TNodeI NI = NV[j];
             int Id = NI.GetId();
             OutWeights[Id] = Graph->GetWeightOutEdges(NI, Attr);
-            PRankV[Id] = 1/NNodes;
+            PRankV[Id] = 1.0/NNodes;
         }
 
         TFltV TmpV(NNodes);
@@ -485,11 +485,11 @@ namespace TSnap {
 
                     const TFlt OutWeight = OutWeights[InNId];
 
-                    int EId = Graph->GetEId(InNId, NI.GetId());
+                    const int EId = NI.GetInEId(e);
                     const TFlt Weight = Weights[Graph->GetFltKeyIdE(EId)];
 
                     if (OutWeight > 0) {
-                        Tmp += PRankH.GetDat(InNId) * Weight / OutWeight;
+                        Tmp += PRankV[InNId] * Weight / OutWeight;
                     }
                 }
                 TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
-- 
2.43.0


From 780ac959e689556c0f8b6b6ea7a46ab2e01cb19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:17 +0000
Subject: [PATCH 035/112] fix: weighted betweenness explored nodes in
 breadth-first order instead of by distance

---
 snap/snap-core/centr.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index ab6bf40..3838489 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -756,7 +756,7 @@ namespace TSnap {
         if (DoEdgeCent) { EdgeBtwH.Clr(); }
         const int nodes = Graph->GetNodes();
         TIntS S(nodes);
-        TIntQ Q(nodes);
+        TIntV Frontier;
         TIntIntVH P(nodes); // one vector for every node
         TIntFltH delta(nodes);
         TIntFltH sigma(nodes), d(nodes);
@@ -784,12 +784,12 @@ namespace TSnap {
                 sigma[i]=0;  d[i]=-1;  delta[i]=0;  P[i].Clr(false);
             }
             S.Clr(false);
-            Q.Clr(false);
+            Frontier.Clr(false);
             sigma.AddDat(NI.GetId(), 1);
             d.AddDat(NI.GetId(), 0);
-            Q.Push(NI.GetId());
-            while (! Q.Empty()) {
-                const int v = Q.Top();  Q.Pop();
+            Frontier.Add(NI.GetId());
+            while (! Frontier.Empty()) {
+                const int v = findMinimum(Frontier, d);
                 const PNEANet::TObj::TNodeI NI2 = Graph->GetNI(v);
                 S.Push(v);
                 const double VDat = d.GetDat(v);
@@ -798,9 +798,14 @@ namespace TSnap {
                     const int eid = NI2.GetOutEId(e);
 
                     if (d.GetDat(w) < 0) { // find w for the first time
-                        Q.Push(w);
+                        Frontier.Add(w);
                         d.AddDat(w, VDat+Attr[eid]);
                     }
+                    else if (d.GetDat(w) > VDat+Attr[eid]) { // found a shorter path to w
+                        d.AddDat(w, VDat+Attr[eid]);
+                        sigma.AddDat(w, 0);
+                        P.GetDat(w).Clr(false);
+                    }
                     //shortest path to w via v ?
                     if (d.GetDat(w) == VDat+Attr[eid]) {
                         sigma.AddDat(w) += sigma.GetDat(v);
-- 
2.43.0


From 412032f194f7968eba52271867842420e968dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 036/112] fix: ConvertSubGraph with renumbering looks up the
 new ids of the nodes

---
 snap/snap-core/subgraph.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/snap/snap-core/subgraph.h b/snap/snap-core/subgraph.h
index eecc035..ffd9cfc 100644
--- a/snap/snap-core/subgraph.h
+++ b/snap/snap-core/subgraph.h
@@ -291,10 +291,10 @@ struct TConvertSubGraph<POutGraph, PInGraph, false> { // InGraph is not multigra
       }
       for (int n = 0; n < NIdV.Len(); n++) {
         typename PInGraph::TObj::TNodeI NI = InGraph->GetNI(NIdV[n]);
-        const int src = NIdSet.GetKey(NIdV[n]);
+        const int src = NIdSet.GetKeyId(NIdV[n]);
         for (int e = 0; e < NI.GetOutDeg(); e++) {
-          const int dst = NIdSet.GetKey(NI.GetOutNId(e));
-          if (! OutGraph.IsNode(dst)) { continue; }
+          const int dst = NIdSet.GetKeyId(NI.GetOutNId(e));
+          if (dst == -1 || ! OutGraph.IsNode(dst)) { continue; }
           OutGraph.AddEdge(src, dst);
         }
       }
-- 
2.43.0


From 9f5b06888f2a887e614dbc71fca0e552cddb6599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 037/112] fix: GetRndSubGraph and GetRndESubGraph accept the
 size of the whole graph

---
 snap/snap-core/subgraph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/subgraph.h b/snap/snap-core/subgraph.h
index ffd9cfc..534b5bd 100644
--- a/snap/snap-core/subgraph.h
+++ b/snap/snap-core/subgraph.h
@@ -355,7 +355,7 @@ PGraph GetRndSubGraph(const PGraph& Graph, const int& NNodes) {
   TIntV NIdV;
   Graph->GetNIdV(NIdV);
   NIdV.Shuffle(TInt::Rnd);
-  NIdV.Del(NNodes, NIdV.Len()-1);
+  if (NNodes < NIdV.Len()) { NIdV.Del(NNodes, NIdV.Len()-1); }
   IAssert(NIdV.Len() == NNodes);
   return GetSubGraph(Graph, NIdV);
 }
@@ -368,7 +368,7 @@ PGraph GetRndESubGraph(const PGraph& Graph, const int& NEdges) {
     EdgeV.Add(TIntPr(EI.GetSrcNId(), EI.GetDstNId()));
   }
   EdgeV.Shuffle(TInt::Rnd);
-  EdgeV.Del(NEdges, EdgeV.Len()-1);
+  if (NEdges < EdgeV.Len()) { EdgeV.Del(NEdges, EdgeV.Len()-1); }
   IAssert(EdgeV.Len() == NEdges);
   return GetESubGraph(Graph, EdgeV);
 }
-- 
2.43.0


From c9dd2d543cd9a77b4c2764c60c89f76a4b85d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 038/112] fix: GetEgonet of an undirected graph accepts a self
 loop at the centre

---
 snap/snap-core/subgraph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/subgraph.cpp b/snap/snap-core/subgraph.cpp
index 7b2b2fa..5b55abf 100644
--- a/snap/snap-core/subgraph.cpp
+++ b/snap/snap-core/subgraph.cpp
@@ -85,7 +85,9 @@ PUNGraph GetEgonet(const PUNGraph& Graph, const int CtrNId, int& ArndEdges) {
   NewGraph.AddNode(CtrNId);
   const TUNGraph::TNodeI& CtrNode = Graph->GetNI(CtrNId);
   for (int i = 0; i < CtrNode.GetInDeg(); ++i) {
-    NewGraph.AddNode(CtrNode.GetInNId(i));
+    if (!NewGraph.IsNode(CtrNode.GetInNId(i))) {
+      NewGraph.AddNode(CtrNode.GetInNId(i));
+    }
   }
   ArndEdges = 0;
   for (int i = 0; i < CtrNode.GetInDeg(); ++i) {
-- 
2.43.0


From 6b9c3e194d3067d5f87322c34816cfb390a1fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 039/112] fix: GetEgonet counts the edges of a mutual neighbour
 once

---
 snap/snap-core/subgraph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/snap/snap-core/subgraph.cpp b/snap/snap-core/subgraph.cpp
index 5b55abf..ed5e497 100644
--- a/snap/snap-core/subgraph.cpp
+++ b/snap/snap-core/subgraph.cpp
@@ -119,8 +119,11 @@ PNGraph GetEgonet(const PNGraph& Graph, const int CtrNId, int& InEdges, int& Out
   }
   InEdges = 0;
   OutEdges = 0;
+  TIntSet DoneSet;
   for (int i = 0; i < CtrNode.GetDeg(); ++i) {
     int NbrNId = CtrNode.GetNbrNId(i);
+    if (DoneSet.IsKey(NbrNId)) { continue; } // linked to the center in both directions
+    DoneSet.AddKey(NbrNId);
     const TNGraph::TNodeI& NbrNode = Graph->GetNI(NbrNId);
     for (int j = 0; j < NbrNode.GetInDeg(); ++j) {
       int NbrNbrNId = NbrNode.GetInNId(j);
-- 
2.43.0


From 43d8ab6f86343cc46397b7ee9ccf0cad6fa20870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 040/112] fix: GenTree accepts a fanout of 1

---
 snap/snap-core/ggen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/ggen.h b/snap/snap-core/ggen.h
index 037cd0c..6dd7244 100644
--- a/snap/snap-core/ggen.h
+++ b/snap/snap-core/ggen.h
@@ -131,7 +131,7 @@ PGraph GenFull(const int& Nodes) {
 
 template <class PGraph>
 PGraph GenTree(const int& Fanout, const int& Levels, const bool& IsDir, const bool& ChildPointsToParent) {
-  const int Nodes = (int) (pow(double(Fanout), double(Levels+1)) - 1) / (Fanout - 1);
+  const int Nodes = Fanout == 1 ? Levels + 1 : (int) (pow(double(Fanout), double(Levels+1)) - 1) / (Fanout - 1);
   const int Edges = Nodes - 1;
   PGraph GraphPt = PGraph::New();
   typename PGraph::TObj& Graph = *GraphPt;
-- 
2.43.0


From ef67ceda6ab73ad1b8d0dcc725b6784ca2b207d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 041/112] fix: GenPrefAttach and GenCopyModel draw from the
 given random generator

---
 snap/snap-core/ggen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/ggen.cpp b/snap/snap-core/ggen.cpp
index 26037fc..0d59e15 100644
--- a/snap/snap-core/ggen.cpp
+++ b/snap/snap-core/ggen.cpp
@@ -320,7 +320,7 @@ PUNGraph GenPrefAttach(const int& Nodes, const int& NodeOutDeg, TRnd& Rnd) {
   for (int node = 2; node < Nodes; node++) {
     NodeSet.Clr(false);
     while (NodeSet.Len() < NodeOutDeg && NodeSet.Len() < node) {
-      NodeSet.AddKey(NIdV[TInt::Rnd.GetUniDevInt(NIdV.Len())]);
+      NodeSet.AddKey(NIdV[Rnd.GetUniDevInt(NIdV.Len())]);
     }
     const int N = Graph.AddNode();
     for (int i = 0; i < NodeSet.Len(); i++) {
@@ -457,7 +457,7 @@ PNGraph GenCopyModel(const int& Nodes, const double& Beta, TRnd& Rnd) {
   const int startNId = Graph.AddNode();
   Graph.AddEdge(startNId, startNId);
   for (int n = 1; n < Nodes; n++) {
-    const int rnd = Graph.GetRndNId();
+    const int rnd = Graph.GetRndNId(Rnd);
     const int NId = Graph.AddNode();
     if (Rnd.GetUniDev() < Beta) {
       Graph.AddEdge(NId, rnd); }
-- 
2.43.0


From 4c815191c45a7210daffb4ae4524e616128089cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 042/112] fix: GenRewire of an undirected graph does not
 duplicate edges

---
 snap/snap-core/ggen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/ggen.cpp b/snap/snap-core/ggen.cpp
index 0d59e15..110b1d0 100644
--- a/snap/snap-core/ggen.cpp
+++ b/snap/snap-core/ggen.cpp
@@ -176,7 +176,7 @@ PUNGraph GenRewire(const PUNGraph& OrigGraph, const int& NSwitch, TRnd& Rnd) {
     const int NId = NI.GetId();
     for (int e = 0; e < NI.GetOutDeg(); e++) {
       if (NId <= NI.GetOutNId(e)) { continue; }
-      EdgeSet.AddKey(TIntPr(NId, NI.GetOutNId(e)));
+      EdgeSet.AddKey(TIntPr(NI.GetOutNId(e), NId)); // smaller id first, as below
     }
     Graph.AddNode(NI.GetId());
   }
-- 
2.43.0


From 7dcec0ef8165ce947c3231d666fed77650bd994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 043/112] fix: push-relabel counts all parallel edges leaving
 the source

---
 snap/snap-core/flow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/flow.cpp b/snap/snap-core/flow.cpp
index 3c429b2..6ab12b2 100644
--- a/snap/snap-core/flow.cpp
+++ b/snap/snap-core/flow.cpp
@@ -398,7 +398,7 @@ int GetMaxFlowIntPR (PNEANet &Net, const int& SrcNId, const int& SnkNId) {
     if (OutNId != SrcNId) {
       int Capacity = PRM.Capacity(EId);
       PRM.Flow(EId) = Capacity;
-      PRM.Excess(OutNId) = Capacity;
+      PRM.Excess(OutNId) += Capacity;
     }
   }
   GlobalRelabel(Net, PRM, SrcNId, SnkNId);
-- 
2.43.0


From 352b39646ae1cde5c96d03f9dadb2bedbf9a2cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 044/112] fix: CNM considers every pair of linked communities
 for merging

---
 snap/snap-core/cmty.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/cmty.cpp b/snap/snap-core/cmty.cpp
index 8dbc9fc..013b771 100644
--- a/snap/snap-core/cmty.cpp
+++ b/snap/snap-core/cmty.cpp
@@ -1369,11 +1369,11 @@ public:
         const int DstNId = NI.GetOutNId(e);
         const double DstMod = 2 * M * (1.0 - OutDeg * Graph->GetNI(DstNId).GetOutDeg() * M);
         Dat.AddQ(DstNId, DstMod);
+        if (NI.GetId() < DstNId) { // the heap holds every pair of linked communities
+          MxQHeap.Add(TFltIntIntTr(DstMod, NI.GetId(), DstNId));
+        }
       }
       Q += -1.0*TMath::Sqr(OutDeg*M);
-      if (NI.GetId() < Dat.GetMxQNId()) {
-        MxQHeap.Add(TFltIntIntTr(Dat.GetMxQ(), NI.GetId(), Dat.GetMxQNId()));
-      }
     }
     MxQHeap.MakeHeap();
   }
@@ -1382,7 +1382,8 @@ public:
       if (MxQHeap.Empty()) { break; }
       const TFltIntIntTr TopQ = MxQHeap.PopHeap();
       if (!CmtyQH.IsKey(TopQ.Val2) || !CmtyQH.IsKey(TopQ.Val3)) { continue; }
-      if (TopQ.Val1 != CmtyQH.GetDat(TopQ.Val2).GetMxQ() && TopQ.Val1 != CmtyQH.GetDat(TopQ.Val3).GetMxQ()) { continue; }
+      const TIntFltH& NIdQH = CmtyQH.GetDat(TopQ.Val2).NIdQH;
+      if (!NIdQH.IsKey(TopQ.Val3) || TopQ.Val1 != NIdQH.GetDat(TopQ.Val3)) { continue; } // outdated
       return TopQ;
     }
     return TFltIntIntTr(-1, -1, -1);
-- 
2.43.0


From 0fead5ee96dbb26b4573458aa00ee4e3ac6a614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 045/112] fix: GenDegSeq accepts nodes of degree 0

---
 snap/snap-core/ggen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/ggen.cpp b/snap/snap-core/ggen.cpp
index 110b1d0..f4805ee 100644
--- a/snap/snap-core/ggen.cpp
+++ b/snap/snap-core/ggen.cpp
@@ -66,7 +66,7 @@ PUNGraph GenDegSeq(const TIntV& DegSeqV, TRnd& Rnd) {
   int DegSum=0, edge=0;
   for (int node = 0; node < Nodes; node++) {
     IAssert(Graph.AddNode(node) == node);
-    DegH.AddDat(node, DegSeqV[node]);
+    if (DegSeqV[node] > 0) { DegH.AddDat(node, DegSeqV[node]); }
     DegSum += DegSeqV[node];
   }
   IAssert(DegSum % 2 == 0);
-- 
2.43.0


From 58363dc40d7dc7296029ca33fe87a7cbb817337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 046/112] fix: GenDegSeq does not look for an edge to break in
 a graph without edges

---
 snap/snap-core/ggen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/ggen.h b/snap/snap-core/ggen.h
index 6dd7244..48a6a85 100644
--- a/snap/snap-core/ggen.h
+++ b/snap/snap-core/ggen.h
@@ -240,6 +240,7 @@ template <class PGraph>
 TIntPr GetRndEdgeNonAdjNode(const PGraph& Graph, int NId1, int NId2) {
   typename PGraph::TObj::TNodeI NI1, NI2;
   int OutDeg = -1;
+  if (Graph->GetEdges() == 0) { return TIntPr(-1, -1); }
   do {
     NI1 = Graph->GetRndNI();
     OutDeg = NI1.GetOutDeg();
-- 
2.43.0


From db6cdc15126d0f3edbf913bae1bc051a622b94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 047/112] fix: GenRndPowerLaw sorts the degree sequence for the
 exact method

---
 snap/snap-core/ggen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/ggen.cpp b/snap/snap-core/ggen.cpp
index f4805ee..0da441f 100644
--- a/snap/snap-core/ggen.cpp
+++ b/snap/snap-core/ggen.cpp
@@ -46,6 +46,7 @@ PUNGraph GenRndPowerLaw(const int& Nodes, const double& PowerExp, const bool& Co
     // use configuration model -- fast but does not exactly obey the degree sequence
     return GenConfModel(DegSeqV, Rnd);
   } else {
+    DegSeqV.Sort(false);
     PUNGraph G = TSnap::GenDegSeq(DegSeqV, Rnd);
     return TSnap::GenRewire(G, 10, Rnd);
   }
-- 
2.43.0


From 12c6de3bd1d4223331e00b9ac54e19ffc9f225c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:08 +0000
Subject: [PATCH 048/112] fix: TurtleParser rejected every collection and every
 bracketed subject

---
 rdf3x/src/cts/TurtleParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 402b492..8c61cf2 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -506,6 +506,7 @@ void TurtleParser::parseBlank(std::string& entry)
                triples.push_back(Triple(nodes[index],"http://www.w3.org/1999/02/22-rdf-syntax-ns#rest",nodes[index+1],Type::URI,""));
             }
             entry=nodes.front();
+            return;
          }
 
       default: parseError("invalid blank entry");
@@ -541,6 +542,7 @@ void TurtleParser::parseSubject(Lexer::Token token,std::string& subject)
          // Opening bracket/parenthesis
          lexer.unget(token,subject);
          parseBlank(subject);
+         return;
       default: parseError("invalid subject");
    }
 }
-- 
2.43.0


From 9ea6d259fc2ac123822dbf98f3a7ae0276407514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:08 +0000
Subject: [PATCH 049/112] fix: TurtleParser dropped the character after a quote
 inside a long string

---
 rdf3x/src/cts/TurtleParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 8c61cf2..05c117a 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -204,9 +204,9 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
    while (read(c)) {
       if (c=='\"') {
          if (!read(c)) break;
-         if (c!='\"') { token+='\"'; continue; }
+         if (c!='\"') { token+='\"'; unread(); continue; }
          if (!read(c)) break;
-         if (c!='\"') { token+="\"\""; continue; }
+         if (c!='\"') { token+="\"\""; unread(); continue; }
          return String;
       }
       if (c=='\\') {
-- 
2.43.0


From 7e32b6d7f3597014f4b56fa3a4dd4d42cadcd329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:08 +0000
Subject: [PATCH 050/112] fix: TurtleParser split decimals such as 5.0 at the
 dot

---
 rdf3x/src/cts/TurtleParser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 05c117a..3c8845b 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -78,7 +78,16 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
             token+=c;
             if (!read(c)) return Integer;
          }
-         if (issep(c)) {
+         if (c=='.') {
+            // Part of the number only if a digit follows, otherwise the end of the triple
+            bool atEnd=!read(c);
+            if (!atEnd) unread();
+            if (atEnd||(c<'0')||(c>'9')) {
+               putBack=Dot;
+               return Integer;
+            }
+            c='.';
+         } else if (issep(c)) {
             unread();
             return Integer;
          }
-- 
2.43.0


From 9fac7b761c66190ffe9731fa1143a7c2d55f4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:08 +0000
Subject: [PATCH 051/112] fix: TurtleParser encoded characters beyond the BMP
 as three bytes

---
 rdf3x/src/cts/TurtleParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 3c8845b..7ee7769 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -164,6 +164,11 @@ static string encodeUtf8(unsigned code)
    } else if (code<0x800) {
       result+=static_cast<char>(0xc0 | (0x1f & (code >> 6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
+   } else if (code>=0x10000) {
+      result+=static_cast<char>(0xf0 | (0x07 & (code >> 18)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >> 12)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
+      result+=static_cast<char>(0x80 | (0x3f & code));
    } else {
       result+=static_cast<char>(0xe0 | (0x0f & (code >> 12)));
       result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
-- 
2.43.0


From e5204feffd4611685535861f56247502357386c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 052/112] fix: TurtleParser took the prefixes a:, true: and
 false: for keywords

---
 rdf3x/src/cts/TurtleParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 7ee7769..e4bbd20 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -345,7 +345,12 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
             if (((c>='A')&&(c<='Z'))||((c>='a')&&(c<='z'))||(c=='_')) { // XXX unicode!
                token=c;
                while (read(c)) {
-                  if (issep(c)) { unread(); break; }
+                  if (issep(c)) {
+                     unread();
+                     // A prefix is a name even if it looks like a keyword
+                     if (c==':') return Name;
+                     break;
+                  }
                   token+=c;
                }
                if (token=="a") return A;
-- 
2.43.0


From 1d391acffcb94f34971bb4ecf8220b1e8a0975ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 053/112] fix: TurtleParser glued the name after white space to
 a qualified name with an empty local part

---
 rdf3x/include/cts/parser/TurtleParser.hpp |  4 ++++
 rdf3x/src/cts/TurtleParser.cpp            | 11 ++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/rdf3x/include/cts/parser/TurtleParser.hpp b/rdf3x/include/cts/parser/TurtleParser.hpp
index 38b8052..957b028 100644
--- a/rdf3x/include/cts/parser/TurtleParser.hpp
+++ b/rdf3x/include/cts/parser/TurtleParser.hpp
@@ -52,6 +52,8 @@ class TurtleParser
       std::string ignored;
       /// The current line
       unsigned line;
+      /// Did white space precede the token read last?
+      bool separated;
 
       /// Size of the read buffer
       static const unsigned readBufferSize = 1024;
@@ -94,6 +96,8 @@ class TurtleParser
       void unget(Token t,const std::string& s) { putBack=t; if (t>=Integer) putBackValue=s; }
       /// Put a token back
       void ungetIgnored(Token t) { putBack=t; if (t>=Integer) putBackValue=ignored; }
+      /// Did white space precede the token read last?
+      bool isSeparated() const { return separated; }
       /// Get the line
       unsigned getLine() const { return line; }
    };
diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index e4bbd20..b7d8654 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -30,7 +30,7 @@ TurtleParser::Exception::~Exception()
 }
 //---------------------------------------------------------------------------
 TurtleParser::Lexer::Lexer(istream& in)
-   : in(in),putBack(Eof),line(1),readBufferStart(0),readBufferEnd(0)
+   : in(in),putBack(Eof),line(1),separated(false),readBufferStart(0),readBufferEnd(0)
    // Constructor
 {
 }
@@ -316,11 +316,12 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
 
    // Read more
    char c;
+   separated=false;
    while (read(c)) {
       switch (c) {
-         case ' ': case '\t': case '\r': continue;
-         case '\n': line++; continue;
-         case '#': while (read(c)) if ((c=='\n')||(c=='\r')) break; if (c=='\n') ++line; continue;
+         case ' ': case '\t': case '\r': separated=true; continue;
+         case '\n': separated=true; line++; continue;
+         case '#': separated=true; while (read(c)) if ((c=='\n')||(c=='\r')) break; if (c=='\n') ++line; continue;
          case '.': if (!read(c)) return Dot; unread(); if ((c>='0')&&(c<='9')) return lexNumber(token,'.'); return Dot;
          case ':': return Colon;
          case ';': return Semicolon;
@@ -460,7 +461,7 @@ void TurtleParser::parseQualifiedName(const string& prefix,string& name)
    string expandedPrefix=prefixes[prefix];
 
    Lexer::Token token=lexer.next(name);
-   if (isName(token)) {
+   if (isName(token)&&!lexer.isSeparated()) {
       name=expandedPrefix+name;
    } else {
       lexer.unget(token,name);
-- 
2.43.0


From faf4823dc1088471e2465ccf71eb9a0b0d8d1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:43 +0000
Subject: [PATCH 054/112] fix: TurtleParser rejected datatypes with the empty
 prefix

---
 rdf3x/src/cts/TurtleParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index b7d8654..41ae24a 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -643,6 +643,7 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                if (token==Lexer::URI) {
                   // Already parsed
                } else if (token==Lexer::Colon) {
+                  lexer.unget(token,type);
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
                   parseQualifiedName(type,type);
-- 
2.43.0


From c93684418efb325e856c0ba568fd7e50a52c2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 055/112] fix: TurtleParser split decimals such as 5.0 at the
 dot (keep the dot apart from the put back token)

---
 rdf3x/include/cts/parser/TurtleParser.hpp |  2 ++
 rdf3x/src/cts/TurtleParser.cpp            | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rdf3x/include/cts/parser/TurtleParser.hpp b/rdf3x/include/cts/parser/TurtleParser.hpp
index 957b028..8e2a70c 100644
--- a/rdf3x/include/cts/parser/TurtleParser.hpp
+++ b/rdf3x/include/cts/parser/TurtleParser.hpp
@@ -54,6 +54,8 @@ class TurtleParser
       unsigned line;
       /// Did white space precede the token read last?
       bool separated;
+      /// Was a dot read together with the last number?
+      bool pendingDot;
 
       /// Size of the read buffer
       static const unsigned readBufferSize = 1024;
diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 41ae24a..e17ec34 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -30,7 +30,7 @@ TurtleParser::Exception::~Exception()
 }
 //---------------------------------------------------------------------------
 TurtleParser::Lexer::Lexer(istream& in)
-   : in(in),putBack(Eof),line(1),separated(false),readBufferStart(0),readBufferEnd(0)
+   : in(in),putBack(Eof),line(1),separated(false),pendingDot(false),readBufferStart(0),readBufferEnd(0)
    // Constructor
 {
 }
@@ -83,7 +83,7 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
             bool atEnd=!read(c);
             if (!atEnd) unread();
             if (atEnd||(c<'0')||(c>'9')) {
-               putBack=Dot;
+               pendingDot=true;
                return Integer;
             }
             c='.';
@@ -314,9 +314,15 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
       return result;
    }
 
+   // A dot already read after a number?
+   separated=false;
+   if (pendingDot) {
+      pendingDot=false;
+      return Dot;
+   }
+
    // Read more
    char c;
-   separated=false;
    while (read(c)) {
       switch (c) {
          case ' ': case '\t': case '\r': separated=true; continue;
-- 
2.43.0


From ebd27f87ca42b9b3eaa7a5b61a090be6ce8d7a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 056/112] fix: TurtleParser read its last buffer again when the
 input ended on a buffer boundary

---
 rdf3x/src/cts/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index e17ec34..9bbd120 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -44,7 +44,7 @@ bool TurtleParser::Lexer::doRead(char& c)
    // Read new characters
 {
    while (in) {
-      readBufferStart=readBuffer;
+      readBufferStart=readBufferEnd=readBuffer;
       in.read(readBuffer,readBufferSize);
       if (!in.gcount()) return false;
       readBufferEnd=readBufferStart+in.gcount();
-- 
2.43.0


From deb165ebb1cd047898a3820e90d518853013de60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 057/112] fix: CartProd kept the right side of the previous run
 when restarted

---
 rdf3x/src/rts/CartProd.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 368f58c..404a347 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -31,6 +31,11 @@ CartProd::~CartProd()
 uint64_t CartProd::first()
     // Produce the first tuple
 {
+    observedOutputCardinality = 0;
+    buffer.clear();
+    idxbuffer = 0;
+    leftExhausted = false;
+
     //Need to store all the first entries in a vector
     if ((leftCount = left->first()) == 0) {
         if (leftOptional) {
-- 
2.43.0


From 96cb4e5443f110846e764c399a28b050a820a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 058/112] fix: MergeUnion delivered the last common value twice

---
 rdf3x/src/rts/MergeUnion.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdf3x/src/rts/MergeUnion.cpp b/rdf3x/src/rts/MergeUnion.cpp
index 89a3e47..f370536 100644
--- a/rdf3x/src/rts/MergeUnion.cpp
+++ b/rdf3x/src/rts/MergeUnion.cpp
@@ -79,6 +79,14 @@ uint64_t MergeUnion::next()
       case done: return false;
       case stepLeft: case stepBoth:
          if ((leftCount=left->next())==0) {
+            if (state==stepBoth) {
+               // The right value was already delivered
+               if ((rightCount=right->next())==0) {
+                  state=done;
+                  return false;
+               }
+               rightValue=rightReg->value;
+            }
             result->value=rightValue;
             state=leftEmpty;
             observedOutputCardinality+=rightCount;
-- 
2.43.0


From 6827127c82e1c781257c7fc3dd5d0c48c7abe8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 059/112] fix: ValuesScan dropped rows of multi-column VALUES
 blocks and could not be restarted

---
 rdf3x/src/rts/ValuesScan.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rdf3x/src/rts/ValuesScan.cpp b/rdf3x/src/rts/ValuesScan.cpp
index 4aef4b8..dadbbdc 100644
--- a/rdf3x/src/rts/ValuesScan.cpp
+++ b/rdf3x/src/rts/ValuesScan.cpp
@@ -18,22 +18,18 @@ ValuesScan::~ValuesScan() {
 
 /// Produce the first tuple
 uint64_t ValuesScan::first() {
-    if (processed < toBeProcessed) {
-        for (auto v : regs) {
-            v->value = values[processed++];
-        }
-        return 1;
-    } else {
-        return 0;
-    }
+    processed = 0;
+    return next();
 }
 
 /// Produce the next tuple
 uint64_t ValuesScan::next() {
     if (processed < toBeProcessed) {
+        size_t pos = processed * regs.size();
         for (auto v : regs) {
-            v->value = values[processed++];
+            v->value = values[pos++];
         }
+        processed++;
         return 1;
     } else {
         return 0;
-- 
2.43.0


From 74ac8addd24dc95c00480a9221dfeb6f9598a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 060/112] fix: Assignment lost the multiplicity of its input
 rows

---
 rdf3x/src/rts/Assignment.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rdf3x/src/rts/Assignment.cpp b/rdf3x/src/rts/Assignment.cpp
index 797a4cc..1c34442 100644
--- a/rdf3x/src/rts/Assignment.cpp
+++ b/rdf3x/src/rts/Assignment.cpp
@@ -28,26 +28,31 @@ void Assignment::print(PlanPrinter& out)
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::first() {
-    if (input->first() == 0)
-        return false;
+    observedOutputCardinality = 0;
+    uint64_t count = input->first();
+    if (count == 0)
+        return 0;
     for (size_t j = 0; j < inputArgs.size(); ++j) {
         if (inputArgs[j].reg != NULL)
             outputVars[j]->value = inputArgs[j].reg->value;
         else
             outputVars[j]->value = inputArgs[j].defaultValue;
     }
-    return true;
+    observedOutputCardinality += count;
+    return count;
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::next() {
-    if (input->next()) {
+    uint64_t count = input->next();
+    if (count != 0) {
         for (size_t j = 0; j < inputArgs.size(); ++j) {
             if (inputArgs[j].reg != NULL)
                 outputVars[j]->value = inputArgs[j].reg->value;
             else
                 outputVars[j]->value = inputArgs[j].defaultValue;
         }
-        return true;
+        observedOutputCardinality += count;
+        return count;
     }
-    return false;
+    return 0;
 }
-- 
2.43.0


From b195888da182a6f7e5cbbf63c39b40aaa9b6521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 061/112] fix: optional MergeJoin lost unmatched rows after a
 block of equal values

---
 rdf3x/src/rts/MergeJoin.cpp | 81 ++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 542467b..9ca55cc 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -46,9 +46,9 @@ uint64_t MergeJoin::first()
                 return false;
             }
             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             }
-            leftValue->value = ~0u;
+            leftValue->value = UINT64_MAX;
             scanState = loopEmptyLeft;
             observedOutputCardinality += rightCount;
             return rightCount;
@@ -59,9 +59,9 @@ uint64_t MergeJoin::first()
     if ((rightCount=right->first())==0) {
         if (rightOptional) {
             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                rightTail[index]->value = ~0u;
+                rightTail[index]->value = UINT64_MAX;
             }
-            rightValue->value = ~0u;
+            rightValue->value = UINT64_MAX;
             scanState = loopEmptyRight;
             observedOutputCardinality += leftCount;
             return leftCount;
@@ -181,9 +181,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanHasBothSwapped) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -196,9 +196,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanStepLeft) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -212,7 +212,7 @@ uint64_t MergeJoin::next()
                             uint64_t l=leftValue->value,r=rightValue->value;
                             if (l<r) {
                                 if (rightOptional) {
-                                    if (rightValue->value == ~0u) {
+                                    if (rightValue->value == UINT64_MAX) {
                                         // Means that right side is exhausted
                                         scanState = scanStepLeft;
                                         observedOutputCardinality += leftCount;
@@ -220,9 +220,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Right side is not exhausted. Push value aside.
                                     copyRight();
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step left, and get right from the shadow.
                                     scanState = scanStepLeftCopyRight;
@@ -234,7 +234,7 @@ uint64_t MergeJoin::next()
                             }
                             if (l>r) {
                                 if (leftOptional) {
-                                    if (leftValue->value == ~0u) {
+                                    if (leftValue->value == UINT64_MAX) {
                                         // Means that left side is exhausted
                                         scanState = scanStepRight;
                                         observedOutputCardinality += rightCount;
@@ -242,9 +242,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Left side is not exhausted. Push value aside.
                                     copyLeft();
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step right, and get left from the shadow.
                                     scanState = scanStepRightCopyLeft;
@@ -317,15 +317,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (leftOptional) {
-                                if (l != ~0u) {
+                                if (l != UINT64_MAX) {
                                     if (l > r) {
                                         // We need to compare the next "right" with this left as well.
                                         swapLeft();
                                         scanState = loopEmptyLeftCopyLeft;
                                     }
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality+=rightCount;
@@ -361,15 +361,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (rightOptional) {
-                                if (r != ~0u) {
+                                if (r != UINT64_MAX) {
                                     if (r > l) {
                                         swapRight();
                                         scanState = loopEmptyRightCopyRight;
                                         // We need to compare the next "left" with this right as well.
                                     }
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality += leftCount;
@@ -392,13 +392,15 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualLeft) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    if (leftValue->value != ~0u) {
-                                        leftValue->value = ~0u;
+                                    if (leftValue->value != UINT64_MAX) {
+                                        leftValue->value = UINT64_MAX;
                                         for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                            leftTail[index]->value = ~0u;
+                                            leftTail[index]->value = UINT64_MAX;
                                         }
                                     }
-                                    scanState = scanStepRight;
+                                    // The next right tuple is in the shadow
+                                    swapRight();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -426,13 +428,15 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualRight) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    if (rightValue->value != ~0u) {
-                                        rightValue->value = ~0u;
+                                    if (rightValue->value != UINT64_MAX) {
+                                        rightValue->value = UINT64_MAX;
                                         for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                            rightTail[index]->value = ~0u;
+                                            rightTail[index]->value = UINT64_MAX;
                                         }
                                     }
-                                    scanState = scanStepLeft;
+                                    // The next left tuple is in the shadow
+                                    swapLeft();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -469,14 +473,16 @@ uint64_t MergeJoin::next()
                                 leftInCopy=false;
                             } else {
                                 if ((leftCount=left->next())==0) {
-                                    if (leftOptional) {
-                                        if (leftValue->value != ~0u) {
-                                            leftValue->value = ~0u;
+                                    if (leftOptional && scanState == loopSpooledRightHasData) {
+                                        if (leftValue->value != UINT64_MAX) {
+                                            leftValue->value = UINT64_MAX;
                                             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                                leftTail[index]->value = ~0u;
+                                                leftTail[index]->value = UINT64_MAX;
                                             }
                                         }
-                                        scanState = loopEmptyLeft;
+                                        // The next right tuple is in the shadow
+                                        swapRight();
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
@@ -495,13 +501,14 @@ uint64_t MergeJoin::next()
                                 // No, right hand side empty?
                                 if (scanState==loopSpooledRightEmpty) {
                                     if (rightOptional) {
-                                        if (rightValue->value != ~0u) {
-                                            rightValue->value = ~0u;
+                                        if (rightValue->value != UINT64_MAX) {
+                                            rightValue->value = UINT64_MAX;
                                             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                                rightTail[index]->value = ~0u;
+                                                rightTail[index]->value = UINT64_MAX;
                                             }
                                         }
-                                        scanState = loopEmptyRight;
+                                        // The current left tuple was not examined yet
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
-- 
2.43.0


From b452fbb5ada9e9d7934dbf047681578b43d03b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:54 +0000
Subject: [PATCH 062/112] fix: optional HashJoin lost unmatched rows (empty
 right side, several rows per key, stale key)

---
 rdf3x/include/rts/operator/HashJoin.hpp |  2 +
 rdf3x/src/rts/HashJoin.cpp              | 56 +++++++++++++++++--------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/rdf3x/include/rts/operator/HashJoin.hpp b/rdf3x/include/rts/operator/HashJoin.hpp
index 92daaf3..6c46e5e 100644
--- a/rdf3x/include/rts/operator/HashJoin.hpp
+++ b/rdf3x/include/rts/operator/HashJoin.hpp
@@ -95,6 +95,8 @@ private:
     void insert(Entry* e);
     /// Lookup an entry
     inline Entry* lookup(uint64_t key);
+    /// Start scanning the left entries without a join partner
+    void startUnmatched();
 
     //Optional?
     bool leftOptional, rightOptional, joinSuccedeed;
diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 8864907..5fe3cee 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -115,7 +115,8 @@ void HashJoin::BuildHashTable::run()
     }
 
     // Update the domains
-    for (uint64_t index = 0, limit = domainRegs.size(); index < limit; ++index)
+    // (an optional left side does not restrict anything)
+    for (uint64_t index = 0, limit = join.leftOptional ? 0 : domainRegs.size(); index < limit; ++index)
         domainRegs[index]->domain->restrictTo(observedDomains[index]);
     if (join.bitset != 0) {
         join.right->setHashKeys(&join.keys, join.bitset);
@@ -202,8 +203,14 @@ uint64_t HashJoin::first()
 
     // Read the first tuple from the right side
     probePeekTask.run();
-    if (((rightCount = probePeekTask.count) == 0) && !leftOptional) {
-        return false;
+    collectedRightValues.clear();
+    hashTableIter = NULL;
+    if ((rightCount = probePeekTask.count) == 0) {
+        if (!rightOptional)
+            return false;
+        // Nothing to join with: deliver the whole left side
+        startUnmatched();
+        return next();
     }
 
     // Setup the lookup
@@ -216,21 +223,35 @@ uint64_t HashJoin::first()
     return next();
 }
 //---------------------------------------------------------------------------
+void HashJoin::startUnmatched()
+    // Start scanning the left entries without a join partner
+{
+    currentIdx = 0;
+    hashTableIter = NULL;
+    rightValue->value = UINT64_MAX;
+    for (uint64_t index = 0, limit = rightTail.size(); index < limit; ++index)
+        rightTail[index]->value = UINT64_MAX;
+}
+//---------------------------------------------------------------------------
 uint64_t HashJoin::next()
     // Produce the next tuple
 {
     if (currentIdx != (size_t) -1) {
-        Entry *e;
-        while (currentIdx < hashTable.size()) {
-            if ((e = hashTable[currentIdx++])
-                    && !collectedRightValues.count(e->key)) {
-                for (uint64_t index = 0, limit = leftTail.size();
-                        index < limit; ++index)
-                    leftTail[index]->value = e->values[index];
-                return e->count;
-            }
+        while (!hashTableIter) {
+            if (currentIdx >= hashTable.size())
+                return false;
+            Entry *e = hashTable[currentIdx++];
+            if (e && !collectedRightValues.count(e->key))
+                hashTableIter = e;
         }
-        return false;
+        Entry *e = hashTableIter;
+        hashTableIter = e->next;
+        leftValue->value = e->key;
+        for (uint64_t index = 0, limit = leftTail.size();
+                index < limit; ++index)
+            leftTail[index]->value = e->values[index];
+        observedOutputCardinality += e->count;
+        return e->count;
     }
 
     // Repeat until a match is found
@@ -255,7 +276,9 @@ uint64_t HashJoin::next()
             joinSuccedeed = true;
             //Set the hash values to NULL
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
+            leftValue->value = UINT64_MAX;
+            observedOutputCardinality += rightCount;
             return rightCount;
         }
 
@@ -270,10 +293,7 @@ uint64_t HashJoin::next()
                 return false;
             } else {
                 //Scan the all left table. return a NULL for each entry not joined
-                currentIdx = 0;
-                for (uint64_t index = 0, limit = rightTail.size();
-                        index < limit; ++index)
-                    rightTail[index]->value = ~0u;
+                startUnmatched();
                 return next();
             }
         }
-- 
2.43.0


From 960bbd134b82b78b9af6de28343a746ff30a61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:02 +0000
Subject: [PATCH 063/112] fix: CartProd left the columns of an empty optional
 right side unset

---
 rdf3x/src/rts/CartProd.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 404a347..00fe581 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -54,6 +54,7 @@ uint64_t CartProd::first()
 	    buffer.push_back(rightCount);
 	    for(int i = 0; i < rightTail.size(); ++i) {
 		buffer.push_back(UINT64_MAX);
+		rightTail[i]->value = UINT64_MAX;
 	    }
 	    idxbuffer = 1 + rightTail.size();
 	} else {
-- 
2.43.0


From 6adcea94916449c67c023cc1986b2cd2407c49f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:02 +0000
Subject: [PATCH 064/112] fix: a restarted MergeJoin used values of the
 previous run as skip hints

---
 rdf3x/src/rts/MergeJoin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 9ca55cc..a362a80 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -39,6 +39,10 @@ uint64_t MergeJoin::first()
 {
     observedOutputCardinality=0;
 
+    // Values of a previous run must not be used as hints
+    leftValue->value=UINT64_MAX;
+    rightValue->value=UINT64_MAX;
+
     // Read the first tuples
     if ((leftCount=left->first())==0) {
         if (leftOptional) {
-- 
2.43.0


From c3f7630c098a6566cd827ae3eae322ead01b2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:10 +0000
Subject: [PATCH 065/112] fix: AggrFunctions reported the key of the previous
 group for a last group with one row

---
 rdf3x/src/rts/AggrFunctions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/rts/AggrFunctions.cpp b/rdf3x/src/rts/AggrFunctions.cpp
index 08f04a3..ee121e3 100644
--- a/rdf3x/src/rts/AggrFunctions.cpp
+++ b/rdf3x/src/rts/AggrFunctions.cpp
@@ -139,6 +139,11 @@ void AggrFunctions::updateVar(std::pair<unsigned,Register*> &var,
 }
 
 void AggrFunctions::processGroup() {
+    //The registers still contain the keys of the previous group
+    for(uint8_t i = 0; i < currentGroupKeys.size(); ++i) {
+        groupKeys[i]->value = currentGroupKeys[i];
+    }
+
     //Add the current row
     hdl.startUpdate();
     for(auto &var : varsToUpdate) {
-- 
2.43.0


From 4ca1d16363f41698eb7809dc1e83df03532b47c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:10 +0000
Subject: [PATCH 066/112] fix: GroupBy kept the rows of the previous run when
 restarted

---
 rdf3x/src/rts/GroupBy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/GroupBy.cpp b/rdf3x/src/rts/GroupBy.cpp
index f1f226b..df4b75c 100644
--- a/rdf3x/src/rts/GroupBy.cpp
+++ b/rdf3x/src/rts/GroupBy.cpp
@@ -79,6 +79,7 @@ bool GroupBy::sameThanPrevious(uint64_t index) {
 /// Produce the first tuple
 uint64_t GroupBy::first() {
     observedOutputCardinality=0;
+    values.clear();
     uint64_t cnt = child->first();
 
     while (cnt > 0) {
-- 
2.43.0


From 9186909fab5db9dac030ab2afb9f5b54b7cbfc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:10 +0000
Subject: [PATCH 067/112] fix: Sort read out of bounds when sorting by count or
 by an absent variable

---
 rdf3x/src/rts/Sort.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/Sort.cpp b/rdf3x/src/rts/Sort.cpp
index efe77ae..1b24319 100644
--- a/rdf3x/src/rts/Sort.cpp
+++ b/rdf3x/src/rts/Sort.cpp
@@ -117,11 +117,11 @@ Sort::Sort(DBLayer& db, Operator* input, const vector<Register*>& values, const
     for (vector<pair<Register*, bool> >::const_iterator iter = registerOrder.begin(), limit = registerOrder.end(); iter != limit; ++iter) {
         if (!(*iter).first) {
             Order o;
-            o.slot = ~0u;
+            o.slot = UINT64_MAX;
             o.descending = (*iter).second;
             order.push_back(o);
         } else {
-            uint64_t slot = ~0u;
+            uint64_t slot = UINT64_MAX;
             for (uint64_t index = 0; index < values.size(); index++)
                 if ((*iter).first == values[index]) {
                     slot = index;
-- 
2.43.0


From ccbabf81ca37dc58ec422b935ed07d22007d79a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:10 +0000
Subject: [PATCH 068/112] fix: Scheduler waited for its workers without holding
 the lock

---
 rdf3x/src/rts/Scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/Scheduler.cpp b/rdf3x/src/rts/Scheduler.cpp
index 779a9cd..66d9aba 100644
--- a/rdf3x/src/rts/Scheduler.cpp
+++ b/rdf3x/src/rts/Scheduler.cpp
@@ -133,6 +133,7 @@ void Scheduler::execute(Operator* root)
    root->getAsyncInputCandidates(*this);
 
    // Execute all asynchronous execution points
+   workerLock.lock();
    while (!registeredPoints.empty()) {
       // Is the worker queue full?
       if ((workQueue.size()+activeWorkers)>=threads) {
-- 
2.43.0


From 963364d4e5ea22137fd9faca3b6b3075fd3ae65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:31 +0000
Subject: [PATCH 069/112] fix: AggrItr::reset did not return to the marked row

---
 include/trident/iterators/aggritr.h |  7 ++++++
 src/trident/iterators/aggritr.cpp   | 37 +++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/include/trident/iterators/aggritr.h b/include/trident/iterators/aggritr.h
index ae6ad5b..316baad 100644
--- a/include/trident/iterators/aggritr.h
+++ b/include/trident/iterators/aggritr.h
@@ -41,6 +41,13 @@ class AggrItr: public PairItr {
         bool hasNextChecked, n;
         int idx;
 
+        //State saved by mark()
+        bool markHasNextChecked, markN;
+        int64_t markValue1, markValue2;
+        bool markSecond;        //was there a second iterator?
+        int64_t markSecondValue; //its position
+        bool secondIsMarked;    //is the current second iterator the marked one?
+
         //int64_t p;
 
 
diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index 1039331..0d9d02e 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -37,6 +37,7 @@ void AggrItr::setup_second_itr(const int idx) {
         throw 10; // not supported
     secondItr = q->getFilePairIterator(idx2, key, constraint2, strategy(coordinates),
             file(coordinates), pos(coordinates));
+    secondIsMarked = false;
     //    secondItr->mark();
 }
 
@@ -97,20 +98,46 @@ void AggrItr::next() {
 
 void AggrItr::mark() {
     mainItr->mark();
+    markHasNextChecked = hasNextChecked;
+    markN = n;
+    markValue1 = value1;
+    markValue2 = value2;
+    markSecond = secondIsMarked = secondItr != NULL;
+    if (secondItr != NULL) {
+        secondItr->mark();
+        markSecondValue = secondItr->getValue2();
+    }
 }
 
 void AggrItr::reset(const char i) {
     if (i == 0) {
         mainItr->reset(i);
-        if (secondItr != NULL) {
-            q->releaseItr(secondItr);
-            secondItr = NULL;
+        if (secondItr != NULL && secondIsMarked) {
+            secondItr->reset(i);
+        } else {
+            if (secondItr != NULL) {
+                q->releaseItr(secondItr);
+                secondItr = NULL;
+            }
+            if (markSecond) {
+                //Move a new iterator to the marked position
+                setup_second_itr(idx);
+                while (secondItr->hasNext()) {
+                    secondItr->next();
+                    if (secondItr->getValue2() >= markSecondValue)
+                        break;
+                }
+            }
         }
+        value1 = markValue1;
+        value2 = markValue2;
+        hasNextChecked = markHasNextChecked;
+        n = markN;
     } else {
         if (secondItr != NULL)
             secondItr->reset(i);
+        hasNextChecked = false;
     }
-    hasNextChecked = false;
 }
 
 void AggrItr::clear() {
@@ -176,6 +203,8 @@ void AggrItr::init(int idx, PairItr* itr, Querier *q) {
     this->q = q;
     this->idx = idx;
     hasNextChecked = n = false;
+    markHasNextChecked = markN = markSecond = secondIsMarked = false;
+    markValue1 = markValue2 = markSecondValue = -1;
     noSecColumn = false;
     secondItr = NULL;
     PairItr::setConstraint1(mainItr->getConstraint1());
-- 
2.43.0


From a23907546e0793fcb16380c8f4cd11b5b67d90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 070/112] fix: AggrItr::moveto skipped rows when the first
 value was not present

---
 src/trident/iterators/aggritr.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index 0d9d02e..17d88f2 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -187,12 +187,11 @@ void AggrItr::moveto(const int64_t c1, const int64_t c2) {
         }
     }
 
-    if (n && !noSecColumn) {
+    if (n && !noSecColumn && mainItr->getValue1() == c1) {
         secondItr->moveto(getKey(), c2);
-        hasNextChecked = true;
-        n = secondItr->hasNext();
-        if (n)
-            secondItr->next();
+        //If there is no such row, then continue with the following first value
+        hasNextChecked = false;
+        hasNext();
     }
 }
 
-- 
2.43.0


From cc98bca21f6701e85abab40427ef5956a2a8e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:08 +0000
Subject: [PATCH 071/112] fix: Scheduler could be destroyed before its workers
 had registered

---
 rdf3x/src/rts/Scheduler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/rts/Scheduler.cpp b/rdf3x/src/rts/Scheduler.cpp
index 66d9aba..5568484 100644
--- a/rdf3x/src/rts/Scheduler.cpp
+++ b/rdf3x/src/rts/Scheduler.cpp
@@ -31,7 +31,8 @@ Scheduler::Scheduler()
    if (threads) {
       workerLock.lock();
       for (unsigned index=0;index<threads;index++)
-         Thread::start(asyncWorker,this);
+         if (Thread::start(asyncWorker,this))
+            workerThreads++;
       workerLock.unlock();
    }
 }
@@ -75,9 +76,8 @@ void Scheduler::executeSingleThreaded(Operator* root)
 void Scheduler::performWork()
    // Perform the work of a worker thread
 {
-   // Register as worker
+   // The constructor has already registered us as worker
    workerLock.lock();
-   workerThreads++;
 
    // Perform the work
    while (!workersDie) {
-- 
2.43.0


From ce1a2b28acd5a404386839b7bc4a47249d478743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:57 +0000
Subject: [PATCH 072/112] fix: a variable repeated inside a triple pattern was
 not checked for equality

---
 rdf3x/src/cts/CodeGen.cpp | 25 +++++++++++++++++++++++--
 rdf3x/src/cts/PlanGen.cpp |  8 ++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 33f22f1..3bb012a 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -87,6 +87,25 @@ static Operator* translateValuesScan(Runtime& runtime, const map<unsigned, Regis
     return new ValuesScan(regs, node.values, node.values.size() / node.variables.size());
 }
 //---------------------------------------------------------------------------
+static Operator* addRepeatedVariableSelections(Runtime& runtime, Operator* input, const QueryGraph::Node& node, Register* subject, bool boundSubject, Register* predicate, bool boundPredicate, Register* object, bool boundObject)
+    // A variable that occurs more than once in a pattern must have the same value at all its positions
+{
+    Register* regs[] = { subject, predicate, object };
+    bool bound[] = { boundSubject, boundPredicate, boundObject };
+    uint64_t vars[] = { node.subject, node.predicate, node.object };
+    Selection::Predicate* predicate_ = 0;
+    for (unsigned index = 0; index < 3; index++)
+        for (unsigned index2 = index + 1; index2 < 3; index2++) {
+            if ((!regs[index]) || (!regs[index2]) || bound[index] || bound[index2] || (vars[index] != vars[index2]))
+                continue;
+            Selection::Predicate* p = new Selection::Equal(new Selection::Variable(regs[index]), new Selection::Variable(regs[index2]));
+            predicate_ = predicate_ ? new Selection::And(predicate_, p) : p;
+        }
+    if (!predicate_)
+        return input;
+    return new Selection(input, runtime, predicate_, input->getExpectedOutputCardinality());
+}
+//---------------------------------------------------------------------------
 static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
     // Translate an index scan into an operator tree
 {
@@ -103,11 +122,12 @@ static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Regist
     //if (runtime.hasDifferentialIndex())
     //    return runtime.getDifferentialIndex().createScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
 
-    return IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
+    Operator* scan = IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
             plan->cardinality);
+    return addRepeatedVariableSelections(runtime, scan, node, subject, constSubject, predicate, constPredicate, object, constObject);
 }
 //---------------------------------------------------------------------------
 static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
@@ -126,11 +146,12 @@ static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsign
     // And return the operator
     //if (runtime.hasDifferentialIndex())
     //return runtime.getDifferentialIndex().createAggregatedScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
-    return AggregatedIndexScan::create(runtime.getDatabase(), order,
+    Operator* scan = AggregatedIndexScan::create(runtime.getDatabase(), order,
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
             plan->cardinality);
+    return addRepeatedVariableSelections(runtime, scan, node, subject, constSubject, predicate, constPredicate, object, constObject);
 }
 //---------------------------------------------------------------------------
 static Operator* translateFullyAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 32b685b..9f438b9 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -545,6 +545,14 @@ PlanGen::Problem* PlanGen::buildScan(const QueryGraph::SubQuery& query, const Qu
     bool unusedPredicate = (!node.constPredicate) && isUnused(*fullQuery, node, node.predicate);
     bool unusedObject = (!node.constObject) && isUnused(*fullQuery, node, node.object);
 
+    // A variable that is repeated in the pattern is used by the pattern itself
+    bool sameSP = (!node.constSubject) && (!node.constPredicate) && (node.subject == node.predicate);
+    bool sameSO = (!node.constSubject) && (!node.constObject) && (node.subject == node.object);
+    bool samePO = (!node.constPredicate) && (!node.constObject) && (node.predicate == node.object);
+    if (sameSP || sameSO) unusedSubject = false;
+    if (sameSP || samePO) unusedPredicate = false;
+    if (sameSO || samePO) unusedObject = false;
+
     // Lookup variables
     uint64_t s = node.constSubject ? UINT64_MAX : node.subject, p = node.constPredicate ? UINT64_MAX : node.predicate, o = node.constObject ? UINT64_MAX : node.object;
     uint64_t sc = node.constSubject ? node.subject : UINT64_MAX, pc = node.constPredicate ? node.predicate : UINT64_MAX, oc = node.constObject ? node.object : UINT64_MAX;
-- 
2.43.0


From 9856b56e12e2959b64b76c5345219a4d23ae6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:57 +0000
Subject: [PATCH 073/112] fix: plans with an unordered fully aggregated scan
 dereferenced a null register

---
 rdf3x/src/cts/CodeGen.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 3bb012a..50516e2 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -166,9 +166,11 @@ static Operator* translateFullyAggregatedIndexScan(Runtime& runtime, const map<u
     resolveScanVariable(runtime, context, projection, bindings, registers,
             0, node, subject, constSubject,
             (order != DBLayer::Order_Subject_Predicate_Object)
-            && (order != DBLayer::Order_Subject_Object_Predicate));
-    resolveScanVariable(runtime, context, projection, bindings, registers, 1, node, predicate, constPredicate, (order != DBLayer::Order_Predicate_Subject_Object) && (order != DBLayer::Order_Predicate_Object_Subject));
-    resolveScanVariable(runtime, context, projection, bindings, registers, 2, node, object, constObject, (order != DBLayer::Order_Object_Subject_Predicate) && (order != DBLayer::Order_Object_Predicate_Subject));
+            && (order != DBLayer::Order_Subject_Object_Predicate)
+            && (order != DBLayer::Order_No_Order_SPO)
+            && (order != DBLayer::Order_No_Order_SOP));
+    resolveScanVariable(runtime, context, projection, bindings, registers, 1, node, predicate, constPredicate, (order != DBLayer::Order_Predicate_Subject_Object) && (order != DBLayer::Order_Predicate_Object_Subject) && (order != DBLayer::Order_No_Order_PSO) && (order != DBLayer::Order_No_Order_POS));
+    resolveScanVariable(runtime, context, projection, bindings, registers, 2, node, object, constObject, (order != DBLayer::Order_Object_Subject_Predicate) && (order != DBLayer::Order_Object_Predicate_Subject) && (order != DBLayer::Order_No_Order_OSP) && (order != DBLayer::Order_No_Order_OPS));
 
     // And return the operator
     //if (runtime.hasDifferentialIndex())
-- 
2.43.0


From d74af12c92354292b131d4fd64e51df17ba593ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:22 +0000
Subject: [PATCH 074/112] fix: filter constants kept only 32 bits of the id and
 unknown ones matched id 0xFFFFFFFF

---
 rdf3x/include/cts/infra/QueryGraph.hpp | 4 ++--
 rdf3x/src/cts/CodeGen.cpp              | 9 ++++++---
 rdf3x/src/cts/QueryGraph.cpp           | 2 +-
 rdf3x/src/cts/SemanticAnalysis.cpp     | 4 ++--
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/rdf3x/include/cts/infra/QueryGraph.hpp b/rdf3x/include/cts/infra/QueryGraph.hpp
index 0daec4b..8f791d7 100644
--- a/rdf3x/include/cts/infra/QueryGraph.hpp
+++ b/rdf3x/include/cts/infra/QueryGraph.hpp
@@ -71,8 +71,8 @@ class QueryGraph {
             Type type;
             /// Input arguments
             Filter* arg1, *arg2, *arg3, *arg4;
-            /// The id (if possible)
-            unsigned id;
+            /// The id (if possible, UINT64_MAX if the constant is not in the dictionary)
+            uint64_t id;
             /// The raw value (for constants)
             std::string value;
             uint64_t valueid; //id of constants
diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 50516e2..60b1e51 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -763,14 +763,16 @@ static Operator* translateFilter(Runtime& runtime, const map<unsigned, Register*
     if (((filter.type == QueryGraph::Filter::Equal) || (filter.type == QueryGraph::Filter::NotEqual)) && (filter.arg1->type == QueryGraph::Filter::Variable)) {
         if (((filter.arg2->type == QueryGraph::Filter::Literal) || (filter.arg2->type == QueryGraph::Filter::IRI)) && (bindings.count(filter.arg1->id))) {
             vector<uint64_t> values;
-            values.push_back(filter.arg2->id);
+            if (~filter.arg2->id) // constants without id match nothing
+                values.push_back(filter.arg2->id);
             result = new Filter(tree, bindings[filter.arg1->id], values, filter.type == QueryGraph::Filter::NotEqual, plan->cardinality);
         }
     }
     if ((!result) && ((filter.type == QueryGraph::Filter::Equal) || (filter.type == QueryGraph::Filter::NotEqual)) && (filter.arg2->type == QueryGraph::Filter::Variable)) {
         if (((filter.arg1->type == QueryGraph::Filter::Literal) || (filter.arg1->type == QueryGraph::Filter::IRI)) && (bindings.count(filter.arg2->id))) {
             vector<uint64_t> values;
-            values.push_back(filter.arg1->id);
+            if (~filter.arg1->id)
+                values.push_back(filter.arg1->id);
             result = new Filter(tree, bindings[filter.arg2->id], values, filter.type == QueryGraph::Filter::NotEqual, plan->cardinality);
         }
     }
@@ -785,7 +787,8 @@ static Operator* translateFilter(Runtime& runtime, const map<unsigned, Register*
                     valid = false;
                     break;
                 }
-                values.push_back(iter->arg1->id);
+                if (~iter->arg1->id)
+                    values.push_back(iter->arg1->id);
             }
         }
         if (valid) {
diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index c560a13..f6c46f0 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -53,7 +53,7 @@ QueryGraph::Edge::~Edge()
 }
 //---------------------------------------------------------------------------
 QueryGraph::Filter::Filter()
-    : arg1(0), arg2(0), arg3(0), arg4(0), id(~0u), subquery(NULL), subpattern(NULL)
+    : arg1(0), arg2(0), arg3(0), arg4(0), id(UINT64_MAX), subquery(NULL), subpattern(NULL)
       // Constructor
 {
 }
diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index d9df672..4398b52 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -389,7 +389,7 @@ static bool encodeFilter(SemanticAnalysis *myself, DBLayer& dict, DifferentialIn
                                                     output.value = input.value;
                                                 } else {
                                                     output.type = QueryGraph::Filter::Literal;
-                                                    output.id = ~0u;
+                                                    output.id = UINT64_MAX;
                                                     output.value = input.value;
                                                     //In this case the literal is completely new (and is not present in the KB.)
                                                     output.valueid = tempDict.add(output.value);
@@ -418,7 +418,7 @@ static bool encodeFilter(SemanticAnalysis *myself, DBLayer& dict, DifferentialIn
                                                 output.value = input.value;
                                             } else {
                                                 output.type = QueryGraph::Filter::IRI;
-                                                output.id = ~0u;
+                                                output.id = UINT64_MAX;
                                                 output.value = input.value;
                                             }
                                         }
-- 
2.43.0


From 45150890734bcc6ad75a507cab895efbae16a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:07 +0000
Subject: [PATCH 075/112] fix: SPARQL parser rejected VALUES at the start of a
 group or after a dot

---
 rdf3x/src/cts/SPARQLParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 93891a3..48cb9a5 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1493,6 +1493,9 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
             } else if (token == SPARQLLexer::Identifier
                     && lexer.isKeyword("minus")) {
                 parseMinus(group);
+            } else if (token == SPARQLLexer::Identifier
+                    && lexer.isKeyword("values")) {
+                parseValues(group);
             } else {
                 lexer.unget(token);
                 parseGraphPattern(group);
-- 
2.43.0


From 20cbe33d60c5c617fa02412edf1c3a3db3cd568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:39 +0000
Subject: [PATCH 076/112] fix: SPARQL parser dropped VALUES, BIND and MINUS of
 a nested group

---
 rdf3x/src/cts/SPARQLParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 48cb9a5..7e35d76 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1463,6 +1463,9 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
                 group.optional.insert(group.optional.end(), newGroup.optional.begin(), newGroup.optional.end());
                 group.unions.insert(group.unions.end(), newGroup.unions.begin(), newGroup.unions.end());
                 group.subqueries.insert(group.subqueries.end(), newGroup.subqueries.begin(), newGroup.subqueries.end());
+                group.minuses.insert(group.minuses.end(), newGroup.minuses.begin(), newGroup.minuses.end());
+                group.assignments.insert(group.assignments.end(), newGroup.assignments.begin(), newGroup.assignments.end());
+                group.values.insert(group.values.end(), newGroup.values.begin(), newGroup.values.end());
             }
 
             if (token != SPARQLLexer::Dot)
-- 
2.43.0


From deef52e32cf979b4fd3d7a47ceafaad695328a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:05 +0000
Subject: [PATCH 077/112] fix: unbound values were stored as 0xFFFFFFFF instead
 of the 64-bit null

---
 rdf3x/src/rts/CartProd.cpp      | 4 ++--
 rdf3x/src/rts/Selection.cpp     | 4 ++--
 rdf3x/src/rts/TableFunction.cpp | 2 +-
 rdf3x/src/rts/Union.cpp         | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 00fe581..bbce101 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -159,7 +159,7 @@ uint64_t CartProd::next()
     joinSuccedeed = true;
     //Set the hash values to NULL
     for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-    leftTail[index]->value = ~0u;
+    leftTail[index]->value = UINT64_MAX;
     return rightCount;
     }
 
@@ -172,7 +172,7 @@ uint64_t CartProd::next()
     currentIdx = 0;
     for (uint64_t index = 0, limit = rightTail.size();
     index < limit; ++index)
-    rightTail[index]->value = ~0u;
+    rightTail[index]->value = UINT64_MAX;
     return next();
     }
     }
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index e483892..6ba1cdd 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -640,7 +640,7 @@ string Selection::Neg::print(PlanPrinter& out)
 void Selection::Null::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u);
+    result.setId(UINT64_MAX);
 }
 //---------------------------------------------------------------------------
 string Selection::Null::print(PlanPrinter& /*out*/)
@@ -736,7 +736,7 @@ void Selection::FunctionCall::setSelection(Selection* s)
 void Selection::FunctionCall::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u); // XXX perform the call
+    result.setId(UINT64_MAX); // XXX perform the call
 }
 //---------------------------------------------------------------------------
 string Selection::FunctionCall::print(PlanPrinter& out)
diff --git a/rdf3x/src/rts/TableFunction.cpp b/rdf3x/src/rts/TableFunction.cpp
index 6076a3f..594274a 100644
--- a/rdf3x/src/rts/TableFunction.cpp
+++ b/rdf3x/src/rts/TableFunction.cpp
@@ -233,7 +233,7 @@ void TableFunction::requestTable()
             }
          }
          if (!ok) {
-            table.push_back(~0u);
+            table.push_back(UINT64_MAX);
          } else {
             table.push_back(id);
          }
diff --git a/rdf3x/src/rts/Union.cpp b/rdf3x/src/rts/Union.cpp
index 1863f3c..a8e8175 100644
--- a/rdf3x/src/rts/Union.cpp
+++ b/rdf3x/src/rts/Union.cpp
@@ -35,7 +35,7 @@ uint64_t Union::firstFromPart()
          continue;
       }
       for (std::vector<Register*>::const_iterator iter=initializations[current].begin(),limit=initializations[current].end();iter!=limit;++iter)
-         (*iter)->value=~0u;
+         (*iter)->value=UINT64_MAX;
       for (std::vector<Register*>::const_iterator iter=mappings[current].begin(),limit=mappings[current].end();iter!=limit;) {
          Register* from=*iter; ++iter;
          Register* to=*iter; ++iter;
-- 
2.43.0


From 9850011a173998d604885ab7ba0e21af6dd32595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 078/112] fix: ResultsPrinter printed unbound values as a
 number

---
 rdf3x/src/rts/ResultsPrinter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 8023223..4d7e441 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -307,7 +307,9 @@ uint64_t ResultsPrinter::first()
             for (vector<Register*>::const_iterator iter = output.begin(),
                     limit = output.end(); iter != limit; ++iter) {
                 uint64_t id = (*iter)->value;
-                if (DictMgmt::isnumeric(id)) {
+                if (!~id) {
+                    ss << "NULL";
+                } else if (DictMgmt::isnumeric(id)) {
                     ss << DictMgmt::tostr(id);
                 } else {
                     CacheEntry c;
-- 
2.43.0


From 536f4d2b237d44b3c5e226d13e7a12d7bf1b0c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 079/112] fix: OFFSET after DISTINCT skipped multiplicities
 instead of rows

---
 rdf3x/src/rts/ResultsPrinter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 4d7e441..76f448b 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -353,6 +353,10 @@ uint64_t ResultsPrinter::first()
     uint64_t entryCount = 0;
     do {
         if (count < minCount) continue;
+	if (o > 0 && duplicateHandling != ExpandDuplicates) { // one row per entry
+	    o--;
+	    continue;
+	}
 	if (o > 0)  {
 	    if (o >= count) {
 		o -= count;
-- 
2.43.0


From db1258ceff562767b7cf976fef2a31f07bb613b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 080/112] fix: LIMIT did not count duplicate rows when the
 output is JSON

---
 rdf3x/src/rts/ResultsPrinter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 76f448b..8c86621 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -365,13 +365,21 @@ uint64_t ResultsPrinter::first()
 	    count -= o;
 	    o = 0;
 	}
+        // Every entry is one row, unless the duplicates are expanded
+        if (duplicateHandling != ExpandDuplicates)
+            entryCount++;
+        else {
+            if (count > this->limit - entryCount)
+                count = this->limit - entryCount;
+            entryCount += count;
+        }
         results.push_back(count);
         for (vector<Register*>::const_iterator iter = output.begin(), limit = output.end(); iter != limit; ++iter) {
             uint64_t id = (*iter)->value;
             results.push_back(id);
             if (~id && !DictMgmt::isnumeric(id)) stringCache[id];
         }
-        if ((++entryCount) >= this->limit) break;
+        if (entryCount >= this->limit) break;
     } while ((count = input->next()) != 0);
 
     //Data structures to maintain a permanent copy of the strings
-- 
2.43.0


From 5c5745e93f29877d2bc1c168da44e7e13afe57bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 081/112] fix: the number of rows of a silent DISTINCT query
 counted duplicates

---
 rdf3x/src/rts/ResultsPrinter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 8c86621..952c13b 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -269,6 +269,10 @@ uint64_t ResultsPrinter::first()
     if (silent && !jsonoutput) {
         //Count the rows and output a single line
         do {
+	    if (duplicateHandling == ShowDuplicates && count < 2)
+		continue;
+	    if (duplicateHandling != ExpandDuplicates)
+		count = 1;
 	    if (o > 0) {
 		if (o >= count) {
 		    o -= count;
-- 
2.43.0


From 56d4913af4fb029819a780021d6ebc9d10a91294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:47 +0000
Subject: [PATCH 082/112] fix: numeric results in JSON output were read from an
 empty cache entry

---
 rdf3x/src/rts/ResultsPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 952c13b..01aa87e 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -173,7 +173,7 @@ void formatJSONRow(const std::vector<std::string> &columns,
             fbinding.put("type", "literal");
             fbinding.put("value", "NULL");
         } else {
-            std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
+            std::string el = DictMgmt::isnumeric(*start) ? DictMgmt::tostr(*start) : stringCache[*start].tostring(/*stringCache,*/ false);
             if (el[0] == '<' && el.size() > 2) {
                 fbinding.put("type", "uri");
                 fbinding.put("value", el.substr(1, el.size() - 2));
@@ -190,7 +190,7 @@ void formatJSONRow(const std::vector<std::string> &columns,
                 binding.put("type", "literal");
                 binding.put("value", "NULL");
             } else {
-                std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
+                std::string el = DictMgmt::isnumeric(*start) ? DictMgmt::tostr(*start) : stringCache[*start].tostring(/*stringCache,*/ false);
                 if (el[0] == '<' && el.size() > 2) {
                     binding.put("type", "uri");
                     binding.put("value", el.substr(1, el.size() - 2));
-- 
2.43.0


From 8fc537b5d3a70a75e8b0f9d5024bc00ed31e04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:47 +0000
Subject: [PATCH 083/112] fix: PlanGen read past the end of a union with a
 single branch

---
 rdf3x/src/cts/PlanGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 9f438b9..28e54e2 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -799,7 +799,7 @@ PlanGen::Problem* PlanGen::buildUnion(const vector<QueryGraph::SubQuery>& query,
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.begin(), limit = query.end(); iter != limit; ++iter)
         collectVariables(*iter, unionVars, 0);
     set_intersection(otherVars.begin(), otherVars.end(), unionVars.begin(), unionVars.end(), back_inserter(commonVars));
-    if (commonVars.size() == 1) {
+    if (commonVars.size() == 1 && solutions.size() > 1) {
         unsigned resultVar = commonVars[0];
         // Can we get all plans sorted in this way?
         bool canMerge = true;
-- 
2.43.0


From c146f94d903a8592124f056faf506aa5f691accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:19 +0000
Subject: [PATCH 084/112] fix: join edges were attached to the wrong parts of a
 query with VALUES

---
 rdf3x/src/cts/PlanGen.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 28e54e2..38f8ba5 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -912,7 +912,7 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
 
     // Check if we could handle the query
     if ((query.nodes.size() + query.optional.size() + query.unions.size() +
-                query.subqueries.size() + query.tableFunctions.size() +
+                query.subqueries.size() + query.tableFunctions.size() + query.valueNodes.size() +
                 singletonNeeded) > BitSet::maxWidth)
         return 0;
 
@@ -953,15 +953,6 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
             dpTable[0] = p;
         last = p;
     }
-    for(auto &iter : query.valueNodes) {
-        Problem* p;
-        p = buildValue(query, iter, id++);
-        if (last)
-            last->next = p;
-        else
-            dpTable[0] = p;
-        last = p;
-    }
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.optional.begin(), limit = query.optional.end(); iter != limit; ++iter, ++id) {
         Problem* p = buildOptional(*iter, entirePlan, id, completeEstimate);
         if (last)
@@ -994,6 +985,17 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         last = p;
     }
 
+    // The values come last, in the order used by QueryGraph::constructEdges
+    for(auto &iter : query.valueNodes) {
+        Problem* p;
+        p = buildValue(query, iter, id++);
+        if (last)
+            last->next = p;
+        else
+            dpTable[0] = p;
+        last = p;
+    }
+
     unsigned functionIds = id;
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(), limit = query.tableFunctions.end(); iter != limit; ++iter, ++id) {
         Problem* p = buildTableFunction(*iter, id);
-- 
2.43.0


From 02bfc12b3ab26de1c3c1a739ae42d4a33a90cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 085/112] fix: a term of VALUES that is not in the dictionary
 emptied the whole query

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index 4398b52..cc5506a 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -606,7 +606,9 @@ static bool transformSubquery(SemanticAnalysis *myself, DBLayer& dict,
             bool constV;
             uint64_t v;
             if ((!encode(dict, diffIndex, value, v, constV))) {
-                return false;
+                // Not in the dictionary: this row matches no pattern, but the other rows still do
+                std::string text = value.type == SPARQLParser::Element::IRI ? "<" + value.value + ">" : value.value;
+                v = tempQueryDict.add(text);
             }
             n.values.push_back(v);
         }
-- 
2.43.0


From de91dbfddf817a29f7c6a7ae5ff769c83cf14b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:50 +0000
Subject: [PATCH 086/112] fix: a union with a single non-empty branch crashed
 the code generation

---
 rdf3x/src/cts/PlanGen.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 38f8ba5..ce0306f 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -767,6 +767,12 @@ PlanGen::Problem* PlanGen::buildUnion(const vector<QueryGraph::SubQuery>& query,
     result->relations = BitSet();
     result->relations.set(id);
 
+    // The other parts may be known to be empty
+    if (solutions.size() == 1) {
+        result->plans = solutions[0];
+        return result;
+    }
+
     // And create a union operator
     Plan* last = plans->alloc();
     last->op = Plan::Union;
@@ -799,7 +805,7 @@ PlanGen::Problem* PlanGen::buildUnion(const vector<QueryGraph::SubQuery>& query,
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.begin(), limit = query.end(); iter != limit; ++iter)
         collectVariables(*iter, unionVars, 0);
     set_intersection(otherVars.begin(), otherVars.end(), unionVars.begin(), unionVars.end(), back_inserter(commonVars));
-    if (commonVars.size() == 1 && solutions.size() > 1) {
+    if (commonVars.size() == 1) {
         unsigned resultVar = commonVars[0];
         // Can we get all plans sorted in this way?
         bool canMerge = true;
-- 
2.43.0


From b78a1cb76e2538a2b4b3b53da90693c687ef23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:27 +0000
Subject: [PATCH 087/112] fix: a group restricted the domains of registers of
 other groups

Registers of the same variable in different union branches, optionals or
subqueries shared one domain description, so a filter or join in one branch
removed rows of the others.
---
 rdf3x/src/cts/CodeGen.cpp | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 60b1e51..a1acbb2 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -1100,19 +1100,22 @@ static Operator* translatePlan(Runtime& runtime, const map<unsigned, Register*>&
     return result;
 }
 //---------------------------------------------------------------------------
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id);
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph::SubQuery& query, unsigned id)
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, vector<set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id);
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, vector<set<unsigned> >& registerClasses, const QueryGraph::SubQuery& query, unsigned id)
     // Allocate registers
 {
+    // Only registers of the same group share a domain. A nested group (a part of an union, an optional, ...) must not
+    // restrict the values of the other ones
+    map<unsigned, set<unsigned> > groupClasses;
     for (vector<QueryGraph::Node>::const_iterator iter = query.nodes.begin(), limit = query.nodes.end(); iter != limit; ++iter) {
         const QueryGraph::Node& node = *iter;
         registers[&node] = id;
         if (!node.constSubject)
-            registerClasses[node.subject].insert(id + 0);
+            groupClasses[node.subject].insert(id + 0);
         if (!node.constPredicate)
-            registerClasses[node.predicate].insert(id + 1);
+            groupClasses[node.predicate].insert(id + 1);
         if (!node.constObject)
-            registerClasses[node.object].insert(id + 2);
+            groupClasses[node.object].insert(id + 2);
         id += 3;
     }
 
@@ -1127,7 +1130,7 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
         registers[reinterpret_cast<const QueryGraph::Node*>(&(*iter))] = id;
         unsigned slot = 0;
         for (vector<unsigned>::const_iterator iter2 = (*iter).output.begin(), limit2 = (*iter).output.end(); iter2 != limit2; ++iter2, ++slot)
-            registerClasses[*iter2].insert(id + slot);
+            groupClasses[*iter2].insert(id + slot);
         id += (*iter).output.size();
     }
 
@@ -1150,7 +1153,7 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
         QueryGraph::Node *n = (QueryGraph::Node*)&(*itr);
         registers[n] = id;
         for (auto v : itr->variables) {
-            registerClasses[v].insert(id++);
+            groupClasses[v].insert(id++);
         }
     }
     for(auto itr = query.filters.begin(); itr != query.filters.end(); ++itr) {
@@ -1161,18 +1164,18 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
             id = allocateRegisters(registers, registerClasses, *itr->subquery.get(), id);
         }
     }
+
+    for (map<unsigned, set<unsigned> >::const_iterator iter = groupClasses.begin(), limit = groupClasses.end(); iter != limit; ++iter)
+        registerClasses.push_back((*iter).second);
     return id;
 }
 //---------------------------------------------------------------------------
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id)
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, vector<set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id)
 {
     id = allocateRegisters(registers, registerClasses, query.getQuery(), id);
     //Also process the global functions
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.c_getGlobalAssignments().begin(), limit = query.c_getGlobalAssignments().end(); iter != limit; ++iter) {
         registers[reinterpret_cast<const QueryGraph::Node*>(&(*iter))] = id;
-        unsigned slot = 0;
-        for (vector<unsigned>::const_iterator iter2 = (*iter).output.begin(), limit2 = (*iter).output.end(); iter2 != limit2; ++iter2, ++slot)
-            registerClasses[*iter2].insert(id + slot);
         id += (*iter).output.size();
     }
     if (!query.c_getAggredateHandler().empty()) {
@@ -1238,16 +1241,16 @@ void CodeGen::prepareRuntime(Runtime &runtime,
         const QueryGraph& query,
         std::map<const QueryGraph::Node*, unsigned> &registers)
 {
-    map<unsigned, set<unsigned> > registerClasses;
+    vector<set<unsigned> > registerClasses;
     unsigned registerCount = allocateRegisters(registers, registerClasses, query, 0);
     runtime.allocateRegisters(registerCount + 1);
     // Prepare domain information for join attributes
     {
         // Count the required number of domains
         unsigned domainCount = 0;
-        for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
+        for (vector<set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
             // No join attribute?
-            if ((*iter).second.size() < 2)
+            if ((*iter).size() < 2)
                 continue;
             // We have a new domain
             domainCount++;
@@ -1256,13 +1259,13 @@ void CodeGen::prepareRuntime(Runtime &runtime,
 
         // And assign registers to domains
         domainCount = 0;
-        for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
+        for (vector<set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
             // No join attribute?
-            if ((*iter).second.size() < 2)
+            if ((*iter).size() < 2)
                 continue;
             // Lookup the register addresses
             PotentialDomainDescription* domain = runtime.getDomainDescription(domainCount++);
-            for (set<unsigned>::const_iterator iter2 = (*iter).second.begin(), limit2 = (*iter).second.end(); iter2 != limit2; ++iter2)
+            for (set<unsigned>::const_iterator iter2 = (*iter).begin(), limit2 = (*iter).end(); iter2 != limit2; ++iter2)
                 runtime.getRegister(*iter2)->domain = domain;
         }
     }
-- 
2.43.0


From b916a1a65f60e438dea4ab6e18ffcdb16fae5e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:26 +0000
Subject: [PATCH 088/112] fix: variables of VALUES were unknown to filters and
 ORDER BY

binds() ignored VALUES, so a filter over such a variable was evaluated with a
constant null.
---
 rdf3x/src/cts/SemanticAnalysis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index cc5506a..f936cc6 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -164,6 +164,10 @@ static bool binds(const SPARQLParser::PatternGroup& group, uint64_t id)
         if (iter->outputVar.id == id)
             return true;
     }
+    for (const auto &bindings : group.values)
+        for (unsigned var : bindings.variables)
+            if (var == id)
+                return true;
     return false;
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From 9bf38e27cef051b652fc7ceb6aca51d4b8bfc126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:05 +0000
Subject: [PATCH 089/112] fix: MINUS lost shared variables that no other part
 uses, and divided by zero without shared variables

---
 rdf3x/src/cts/CodeGen.cpp | 4 ++++
 rdf3x/src/cts/PlanGen.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index a1acbb2..fcdcfb3 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -861,6 +861,10 @@ static Operator* translateMinus(Runtime& runtime,const map<unsigned, Register*>&
         }
     }
 
+    //Without common variables nothing is removed
+    if (varsToCheck.empty())
+        return translatePlan(runtime, context, projection, bindings, registers, plan->left);
+
     //Make sure that all the common variables are also projected in the main tree
     auto newprojection = projection;
     for(auto v : varsToCheck) newprojection.insert(v);
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index ce0306f..38239d4 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -410,7 +410,7 @@ static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
     if (filter->type == QueryGraph::Filter::Variable)
         if (filter->id == val)
             return false;
-    return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val);
+    return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val) && isUnused(filter->arg4, val);
 }
 //---------------------------------------------------------------------------
 static bool isUnused(const QueryGraph::TableFunction* function, uint64_t val) {
@@ -460,6 +460,9 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.subqueries.begin(); itr != query.subqueries.end(); ++itr)
         if (! isUnused((*itr)->getQuery(), node, val))
             return false;
+    for (const auto &minus : query.minuses)
+        if (!isUnused(minus->getQuery(), node, val))
+            return false;
     return true;
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From 56e4441bc6ff332cc4ec16c91748223a02369a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:12 +0000
Subject: [PATCH 090/112] fix: bound() of a variable without any register
 crashed the code generation

---
 rdf3x/src/cts/CodeGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index fcdcfb3..8387781 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -567,7 +567,7 @@ static Selection::Predicate* buildSelection(Runtime &runtime, const map<unsigned
         case QueryGraph::Filter::Builtin_datatype:
                                            return new Selection::BuiltinDatatype(buildSelection(runtime,bindings, *filter.arg1, plan, registers));
         case QueryGraph::Filter::Builtin_bound:
-                                           if (~(filter.arg1->id))
+                                           if (bindings.count(filter.arg1->id))
                                                return new Selection::BuiltinBound((*bindings.find(filter.arg1->id)).second);
                                            else
                                                return new Selection::False();
-- 
2.43.0


From 7379fc2b56c2d9c330947e3932eb11db9b9a379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:03 +0000
Subject: [PATCH 091/112] fix: ORDER BY a variable without any register crashed

---
 rdf3x/src/cts/CodeGen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 8387781..43882c7 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -1217,6 +1217,10 @@ Operator* CodeGen::translateIntern(Runtime& runtime, const QueryGraph& query, Pl
 
         // Sort if necessary
         if (query.orderBegin() != query.orderEnd()) {
+            // Variables that no remaining part binds are null
+            for (set<unsigned>::const_iterator iter = projection.begin(), limit = projection.end(); iter != limit; ++iter)
+                if (!bindings.count(*iter))
+                    bindings[*iter] = runtime.getRegister(runtime.getRegisterCount() - 1);
             vector<Register*> regs;
             vector<pair<Register*, bool> > order;
             for (set<unsigned>::const_iterator iter = projection.begin(), limit = projection.end(); iter != limit; ++iter)
-- 
2.43.0


From 788b3bda07d3ba76f1e03d9593ffc0dbd862f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:01 +0000
Subject: [PATCH 092/112] fix: plans of MINUS and of subselects had
 uninitialised successors, costs and orderings

---
 rdf3x/src/cts/PlanGen.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 38239d4..1029fc8 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -936,6 +936,10 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         plan->left = childPlan;
         plan->right = reinterpret_cast<Plan*>(
                 const_cast<QueryGraph*>(itr->get()));
+        plan->opArg = 0;
+        plan->next = 0;
+        plan->costs = childPlan->costs;
+        plan->ordering = ~0u;
         //Little tweak: if there is a limit, then this limits the cardinality
         plan->cardinality = childPlan->cardinality;
         if (plan->cardinality > (*itr)->getLimit()) {
@@ -1289,9 +1293,13 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         subqueryPlan->subquery = itr;
         Plan* p = plans->alloc();
         p->op = Plan::Minus;
+        p->opArg = 0;
         p->left = plan;
         p->right = subqueryPlan;
+        p->next = 0;
         p->cardinality = plan->cardinality;
+        p->costs = plan->costs + subqueryPlan->costs;
+        p->ordering = plan->ordering;
         plan = p;
     }
 
-- 
2.43.0


From 3da28ddf0f0012ab9090b6315f054202ca181c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:01 +0000
Subject: [PATCH 093/112] fix: patterns inside MINUS were never joined with
 each other

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index f936cc6..d23e92e 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -686,6 +686,7 @@ static bool transformSubquery(SemanticAnalysis *myself, DBLayer& dict,
         if (!transformSubquery(myself, dict, diffIndex, it, q->getQuery(), tempQueryDict, currentQueryGraph)) {
             continue;
         }
+        q->constructEdges();
         output.minuses.push_back(q);
     }
 
-- 
2.43.0


From 16cd211dfbc66b32e3047728c25c117968b2862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:01 +0000
Subject: [PATCH 094/112] fix: aggregates of a query were also computed inside
 its unions and optionals

---
 rdf3x/src/cts/PlanGen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 1029fc8..31b59aa 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -1303,6 +1303,10 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         plan = p;
     }
 
+    // The groups and aggregates belong to the query itself, not to its optional or union parts
+    if (&query != &entirePlan.getQuery())
+        return plan;
+
     //GroupBy
     bool addedGroupBy = false;
 
-- 
2.43.0


From cb44833de13dcd4e009b5b88efc0145c27209cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:01 +0000
Subject: [PATCH 095/112] fix: OPTIONAL joined by a nested loop lost rows, and
 joins read the join variable from the optional side

---
 rdf3x/src/cts/CodeGen.cpp | 12 +++++++++---
 rdf3x/src/cts/PlanGen.cpp | 10 ++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 43882c7..b79ef9d 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -297,9 +297,15 @@ static void getJoinVariables(const map<unsigned, Register*>& context, set<unsign
 }
 
 //---------------------------------------------------------------------------
-static void mergeBindings(const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<unsigned, Register*>& leftBindings, const map<unsigned, Register*>& rightBindings)
+static void mergeBindings(const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<unsigned, Register*>& leftBindings, const map<unsigned, Register*>& rightBindings, bool leftOptional = false)
     // Merge bindings after a join
 {
+    // The registers of an optional part are null if there was no match
+    if (leftOptional) {
+        mergeBindings(projection, bindings, rightBindings, leftBindings);
+        return;
+    }
+
     for (map<unsigned, Register*>::const_iterator iter = leftBindings.begin(), limit = leftBindings.end(); iter != limit; ++iter)
         if (projection.count((*iter).first))
             bindings[(*iter).first] = (*iter).second;
@@ -374,7 +380,7 @@ static Operator* translateMergeJoin(Runtime& runtime, const map<unsigned, Regist
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    mergeBindings(projection, bindings, leftBindings, rightBindings, plan->left->optional && !plan->right->optional);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
@@ -409,7 +415,7 @@ static Operator* translateHashJoin(Runtime& runtime, const map<unsigned, Registe
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    mergeBindings(projection, bindings, leftBindings, rightBindings, plan->left->optional && !plan->right->optional);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 31b59aa..5dda0cb 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -1163,7 +1163,7 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                                         p->left = leftPlan;
                                         p->right = rightPlan;
                                         p->next = 0;
-                                        if ((p->cardinality = leftPlan->cardinality * rightPlan->cardinality * selectivity) < 1) p->cardinality = 1;
+                                        if ((p->cardinality = leftPlan->cardinality * rightPlan->cardinality * (selectivity >= 0 ? selectivity : 1)) < 1) p->cardinality = 1;
                                         p->costs = leftPlan->costs + rightPlan->costs + Costs::mergeJoin(leftPlan->cardinality, rightPlan->cardinality);
                                         p->ordering = leftPlan->ordering;
                                         addPlan(problem, p);
@@ -1172,14 +1172,16 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                                 }
                             }
                             // Try a hash join
-                            if (selectivity >= 0) {
+                            if ((selectivity >= 0) || leftPlan->optional || rightPlan->optional) {
+                                // Only hash joins and merge joins keep the rows without a match in an optional part
+                                double hashSelectivity = (selectivity >= 0) ? selectivity : 1;
                                 Plan* p = plans->alloc();
                                 p->op = Plan::HashJoin;
                                 p->opArg = 0;
                                 p->left = leftPlan;
                                 p->right = rightPlan;
                                 p->next = 0;
-                                if ((p->cardinality = leftPlan->cardinality * rightPlan->cardinality * selectivity) < 1) p->cardinality = 1;
+                                if ((p->cardinality = leftPlan->cardinality * rightPlan->cardinality * hashSelectivity) < 1) p->cardinality = 1;
                                 p->costs = leftPlan->costs + rightPlan->costs + Costs::hashJoin(leftPlan->cardinality, rightPlan->cardinality);
                                 p->ordering = ~0u;
                                 addPlan(problem, p);
@@ -1190,7 +1192,7 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                                 p->left = rightPlan;
                                 p->right = leftPlan;
                                 p->next = 0;
-                                if ((p->cardinality = leftPlan->cardinality * rightPlan->cardinality * selectivity) < 1) p->cardinality = 1;
+                                if ((p->cardinality = leftPlan->cardinality * rightPlan->cardinality * hashSelectivity) < 1) p->cardinality = 1;
                                 p->costs = leftPlan->costs + rightPlan->costs + Costs::hashJoin(rightPlan->cardinality, leftPlan->cardinality);
                                 p->ordering = ~0u;
                                 addPlan(problem, p);
-- 
2.43.0


From 2a8c5a1a27a404d16840abe118e24eb7b722db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:18 +0000
Subject: [PATCH 096/112] fix: plans dropped variables that VALUES, MINUS, NOT
 EXISTS, GROUP BY or aggregates still need

---
 rdf3x/src/cts/CodeGen.cpp |  2 +-
 rdf3x/src/cts/PlanGen.cpp | 51 ++++++++++++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index b79ef9d..0722ccd 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -221,8 +221,8 @@ static void collectVariables(const map<unsigned, Register*>& context, set<unsign
         case Plan::Singleton:
                                   break;
         case Plan::Minus:
+                                  // The right side only removes rows, its variables are not visible
                                   collectVariables(context, variables, plan->left);
-                                  collectVariables(context, variables, plan->right);
                                   break;
         case Plan::ValuesScan:
                                   for (auto v : ((QueryGraph::ValuesNode*) plan->left)->variables) {
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 5dda0cb..94d167e 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -402,6 +402,8 @@ void PlanGen::buildFullyAggregatedIndexScan(const QueryGraph::SubQuery& query, D
     addPlan(result, plan);
 }
 //---------------------------------------------------------------------------
+static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node& node, uint64_t val);
+//---------------------------------------------------------------------------
 static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
     // Check if a variable is unused
 {
@@ -413,6 +415,18 @@ static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
     return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val) && isUnused(filter->arg4, val);
 }
 //---------------------------------------------------------------------------
+static bool isUnusedInPatterns(const QueryGraph::Filter* filter, const QueryGraph::Node& node, unsigned val)
+    // Check if a variable is unused in the patterns of a filter
+{
+    if (!filter)
+        return true;
+    if (filter->subpattern && (!isUnused(*filter->subpattern, node, val)))
+        return false;
+    if (filter->subquery && (!isUnused(filter->subquery->getQuery(), node, val)))
+        return false;
+    return isUnusedInPatterns(filter->arg1, node, val) && isUnusedInPatterns(filter->arg2, node, val) && isUnusedInPatterns(filter->arg3, node, val) && isUnusedInPatterns(filter->arg4, node, val);
+}
+//---------------------------------------------------------------------------
 static bool isUnused(const QueryGraph::TableFunction* function, uint64_t val) {
     //Check all variables in input
     for (std::vector<QueryGraph::TableFunction::Argument>::const_iterator itr = function->input.begin(); itr != function->input.end();
@@ -428,7 +442,7 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
     // Check if a variable is unused outside its primary pattern
 {
     for (vector<QueryGraph::Filter>::const_iterator iter = query.filters.begin(), limit = query.filters.end(); iter != limit; ++iter)
-        if (!isUnused(&(*iter), val))
+        if ((!isUnused(&(*iter), val)) || (!isUnusedInPatterns(&(*iter), node, val)))
             return false;
 
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(),
@@ -480,6 +494,14 @@ static bool isUnused(const QueryGraph& query, const QueryGraph::Node& node, unsi
         }
     }
 
+    for (unsigned var : query.getGroupBy())
+        if (var == val)
+            return false;
+    const auto aggregates = query.c_getAggredateHandler().getInputOutputVars();
+    for (unsigned var : aggregates.first)
+        if (var == val)
+            return false;
+
     //Check if the variable is used in some assignments
     for (const auto &tableFunction : query.c_getGlobalAssignments()) {
         for (const auto &arg : tableFunction.input) {
@@ -686,6 +708,8 @@ PlanGen::Problem* PlanGen::buildOptional(const QueryGraph::SubQuery& query,
     return result;
 }
 //---------------------------------------------------------------------------
+static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& vars, const void* except);
+//---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph::Filter* filter, set<unsigned>& vars, const void* except)
     // Collect all variables used in a filter
 {
@@ -696,6 +720,11 @@ static void collectVariables(const QueryGraph::Filter* filter, set<unsigned>& va
     collectVariables(filter->arg1, vars, except);
     collectVariables(filter->arg2, vars, except);
     collectVariables(filter->arg3, vars, except);
+    collectVariables(filter->arg4, vars, except);
+    if (filter->subpattern)
+        collectVariables(*filter->subpattern, vars, except);
+    if (filter->subquery)
+        collectVariables(filter->subquery->getQuery(), vars, except);
 }
 //---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& vars, const void* except)
@@ -719,6 +748,18 @@ static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& v
             for (vector<QueryGraph::SubQuery>::const_iterator iter2 = (*iter).begin(), limit2 = (*iter).end(); iter2 != limit2; ++iter2)
                 if (except != (&(*iter2)))
                     collectVariables(*iter2, vars, except);
+    for (const auto &values : query.valueNodes)
+        vars.insert(values.variables.begin(), values.variables.end());
+    for (const auto &function : query.tableFunctions) {
+        for (const auto &arg : function.input)
+            if (~arg.id) vars.insert(arg.id);
+        vars.insert(function.output.begin(), function.output.end());
+        collectVariables(function.associatedFilter.get(), vars, except);
+    }
+    for (const auto &subquery : query.subqueries)
+        vars.insert(subquery->projectionBegin(), subquery->projectionEnd());
+    for (const auto &minus : query.minuses)
+        collectVariables(minus->getQuery(), vars, except);
 }
 //---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const void* except)
@@ -726,6 +767,14 @@ static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const
 {
     for (QueryGraph::projection_iterator iter = query.projectionBegin(), limit = query.projectionEnd(); iter != limit; ++iter)
         vars.insert(*iter);
+    for (QueryGraph::order_iterator iter = query.orderBegin(), limit = query.orderEnd(); iter != limit; ++iter)
+        if (~(*iter).id) vars.insert((*iter).id);
+    vars.insert(query.getGroupBy().begin(), query.getGroupBy().end());
+    const auto aggregates = query.c_getAggredateHandler().getInputOutputVars();
+    vars.insert(aggregates.first.begin(), aggregates.first.end());
+    for (const auto &function : query.c_getGlobalAssignments())
+        for (const auto &arg : function.input)
+            if (~arg.id) vars.insert(arg.id);
     if (except != (&(query.getQuery())))
         collectVariables(query.getQuery(), vars, except);
 }
-- 
2.43.0


From a26df0bcc9e1b1e4297994a8d315bd0322d41a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:03 +0000
Subject: [PATCH 097/112] fix: merge joins with an optional side skipped rows
 without a match

---
 rdf3x/src/rts/MergeJoin.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index a362a80..edc6ae3 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -23,8 +23,11 @@ MergeJoin::MergeJoin(Operator* left,Register* leftValue,const std::vector<Regist
     leftShadow.resize(leftTail.size()+2);
     rightShadow.resize(rightTail.size()+2);
 
-    left->addMergeHint(leftValue,rightValue);
-    right->addMergeHint(leftValue,rightValue);
+    // Inputs that keep rows without a match must not skip any
+    if (!rightOptional)
+        left->addMergeHint(leftValue,rightValue);
+    if (!leftOptional)
+        right->addMergeHint(leftValue,rightValue);
 }
 //---------------------------------------------------------------------------
 MergeJoin::~MergeJoin()
-- 
2.43.0


From 51a676ce07d0bc5f5bde0e775b685bb22bc7da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:03 +0000
Subject: [PATCH 098/112] fix: DISTINCT over MINUS also compared variables that
 are not projected

---
 rdf3x/src/cts/CodeGen.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 0722ccd..eaa4233 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -896,6 +896,9 @@ static Operator* translateMinus(Runtime& runtime,const map<unsigned, Register*>&
         regsToCheck.push_back(make_pair(bindings.find(v)->second,
                     minusBindings.find(v)->second));
     }
+    for (auto v : varsToCheck)
+        if (!projection.count(v))
+            bindings.erase(v);
 
     Operator *result = new Minus(mainTree, minusTree, regsToCheck,
             plan->left->cardinality);
-- 
2.43.0


From ac303a8e9ca00ecd8f574cbe4b56505430299da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:13 +0000
Subject: [PATCH 099/112] fix: an OPTIONAL was combined with unrelated parts
 before the part it extends

---
 rdf3x/src/cts/PlanGen.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 94d167e..03ae3cd 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -1263,13 +1263,28 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                 }
             }
         }
+        // An optional part must be joined with a part that it shares variables with
+        auto onlyJoinableOptional = [&](const BitSet &relations) {
+            for (unsigned opt = query.nodes.size(), limit = opt + query.optional.size(); opt < limit; opt++) {
+                BitSet single;
+                single.set(opt);
+                if (relations.subsetOf(single)) {
+                    for (const auto &join : joins)
+                        if (single.subsetOf(join.left) || single.subsetOf(join.right))
+                            return true;
+                }
+            }
+            return false;
+        };
         if (dpTable[index] == NULL) { //No join was found. Yet, I need to include some problems that are not considered. Use cartesian product.
             for (unsigned index2 = 0; index2 < index && !dpTable[index]; index2++) {
                 for (Problem* iter = dpTable[index2]; iter && !dpTable[index]; iter = iter->next) {
                     BitSet leftRel = iter->relations;
+                    if (onlyJoinableOptional(leftRel))
+                        continue;
                     for (Problem* iter2 = dpTable[index - index2 - 1]; iter2; iter2 = iter2->next) {
                         BitSet rightRel = iter2->relations;
-                        if (leftRel.overlapsWith(rightRel))
+                        if (leftRel.overlapsWith(rightRel) || onlyJoinableOptional(rightRel))
                             continue;
                         Problem* problem = 0;
                         BitSet relations = leftRel.unionWith(rightRel);
-- 
2.43.0


From 69d4de54cf74df5928ec617632118b240a4b0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:36 +0000
Subject: [PATCH 100/112] fix: a restarted subselect continued its counters, so
 nested loops lost rows

---
 rdf3x/src/rts/DuplLimit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/rts/DuplLimit.cpp b/rdf3x/src/rts/DuplLimit.cpp
index 9bc6236..20c42a1 100644
--- a/rdf3x/src/rts/DuplLimit.cpp
+++ b/rdf3x/src/rts/DuplLimit.cpp
@@ -20,6 +20,8 @@ DuplLimit::DuplLimit(
 uint64_t DuplLimit::first()
 // Produce the first tuple
 {
+    observedOutputCardinality = 0;
+    currentCount = 0;
     if (observedOutputCardinality < limit) {
         if ((entryCount = input->first()) != 0) {
 	    // If there is an offset, skip those.
-- 
2.43.0


From 2baf6d1d474c154894633ae4412878bbff48062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:36 +0000
Subject: [PATCH 101/112] fix: DISTINCT in a subselect kept duplicates, and its
 unused variables leaked into an outer DISTINCT

---
 rdf3x/src/cts/CodeGen.cpp |  4 +++-
 rdf3x/src/cts/PlanGen.cpp | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index eaa4233..b13f2be 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -837,7 +837,9 @@ static Operator* translateSubselect(Runtime& runtime, /*const map<unsigned, Regi
     int i = 0;
     for (QueryGraph::projection_iterator itr = query->projectionBegin();
             itr != query->projectionEnd(); ++itr) {
-        bindings.insert(make_pair(*itr, outputFromTheSubquery[i++]));
+        if (projection.count(*itr))
+            bindings.insert(make_pair(*itr, outputFromTheSubquery[i]));
+        i++;
     }
 
     tree = new DuplLimit(tree, outputFromTheSubquery, duplicateHandling,
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 03ae3cd..8ff5e5c 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -980,6 +980,18 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         PlanGen p(plans);
         p.init(db, *itr->get());
         Plan* childPlan = p.translate_int((*itr)->getQuery(), *itr->get(), completeEstimate);
+        if ((*itr)->getDuplicateHandling() == QueryGraph::NoDuplicates) {
+            Plan* group = plans->alloc();
+            group->op = Plan::HashGroupify;
+            group->opArg = 0;
+            group->left = childPlan;
+            group->right = 0;
+            group->next = 0;
+            group->cardinality = childPlan->cardinality;
+            group->costs = childPlan->costs;
+            group->ordering = ~0u;
+            childPlan = group;
+        }
         Plan* plan = plans->alloc();
         plan->op = Plan::Subselect;
         plan->left = childPlan;
-- 
2.43.0


From 3f6e9dc78ec25bec1a1be280a342d8b8be87c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:39 +0000
Subject: [PATCH 102/112] fix: hash joins dropped unbound values and values of
 other union parts because of the domain of one part

---
 rdf3x/src/cts/CodeGen.cpp  | 5 +++++
 rdf3x/src/rts/HashJoin.cpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index b13f2be..666dfb8 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -952,6 +952,10 @@ static Operator* translateUnion(Runtime& runtime, const map<unsigned, Register*>
                 initializations[index].push_back((*iter).second);
     }
 
+    // The result registers hold values of all parts, the domain of the first part does not apply
+    for (map<unsigned, Register*>::const_iterator iter = bindings.begin(), limit = bindings.end(); iter != limit; ++iter)
+        (*iter).second->domain = 0;
+
     // Build the operator
     Operator* result = new Union(trees, mappings, initializations, plan->cardinality);
 
@@ -972,6 +976,7 @@ static Operator* translateMergeUnion(Runtime& runtime, const map<unsigned, Regis
     unsigned resultVar = (*(leftBinding.begin())).first;
     Register* leftReg = (*(leftBinding.begin())).second, *rightReg = (*(rightBinding.begin())).second;
     bindings[resultVar] = leftReg;
+    leftReg->domain = 0; // also holds the values of the other part
 
     // Build the operator
     Operator* result = new MergeUnion(leftReg, left, leftReg, right, rightReg, plan->cardinality);
diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 5fe3cee..ec2b767 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -51,6 +51,9 @@ void HashJoin::BuildHashTable::run()
         // Check the domain first
         bool joinCandidate = true;
         for (uint64_t index = 0, limit = domainRegs.size(); index < limit; ++index) {
+            // Unbound values are not part of any domain
+            if (domainRegs[index]->value == UINT64_MAX)
+                continue;
             if (!domainRegs[index]->domain->couldQualify(domainRegs[index]->value)) {
                 joinCandidate = false;
                 break;
-- 
2.43.0


From dcf5be57c1d9c07b66a6d2002aa311c8f8ab90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:11 +0000
Subject: [PATCH 103/112] fix: aggregates shared DISTINCT across functions and
 groups, ignored multiplicities and counted unbound values

---
 include/trident/sparql/aggrhandler.h | 21 ++++---------
 rdf3x/src/cts/SPARQLParser.cpp       |  4 +--
 rdf3x/src/cts/SemanticAnalysis.cpp   |  3 +-
 rdf3x/src/rts/AggrFunctions.cpp      |  5 ++-
 src/trident/sparql/aggrhandler.cpp   | 47 +++++++++++++++-------------
 5 files changed, 38 insertions(+), 42 deletions(-)

diff --git a/include/trident/sparql/aggrhandler.h b/include/trident/sparql/aggrhandler.h
index 44564fa..adca003 100644
--- a/include/trident/sparql/aggrhandler.h
+++ b/include/trident/sparql/aggrhandler.h
@@ -30,8 +30,11 @@ class AggregateHandler {
             int64_t arg1_int, arg2_int; //various arguments used by the functions
             double arg1_dec, arg2_dec;
             bool arg1_bool, arg2_bool;
+            bool distinct;
+            std::set<std::pair<int, uint64_t>> seen; //Values of the group, if distinct
 
             void reset() {
+                seen.clear();
                 arg1_int = arg2_int = 0;
                 arg1_dec = arg2_dec = 0;
                 arg1_bool = arg2_bool = true;
@@ -40,9 +43,8 @@ class AggregateHandler {
 
 
         unsigned varcount;
-        std::map<FUNC,std::map<unsigned,unsigned>> assignments;
-        bool distinct[FUNC::NFUNCS];
-        std::set<uint64_t> sets[FUNC::NFUNCS];
+        //The flag tells whether the function is applied to distinct values
+        std::map<std::pair<FUNC, bool>,std::map<unsigned,unsigned>> assignments;
         uint64_t inputmask;
         std::vector<VarValue> varvalues;
         std::vector<FunctCall> executions;
@@ -58,13 +60,10 @@ class AggregateHandler {
 
     public:
         AggregateHandler(unsigned varcount) : varcount(varcount) {
-            for (int i = 0; i < FUNC::NFUNCS; i++) {
-                distinct[i] = false;
-            }
         }
 
         unsigned getNewOrExistingVar(FUNC funID,
-                std::vector<unsigned> &signature);
+                std::vector<unsigned> &signature, bool distinct);
 
         unsigned getVarCount() const {
             return varcount;
@@ -74,14 +73,6 @@ class AggregateHandler {
             return assignments.empty();
         }
 
-        void setDistinct(FUNC funID, bool distinct) {
-            this->distinct[funID] = distinct;
-        }
-
-        bool getDistinct(FUNC funID) const {
-            return distinct[funID];
-        }
-
         void prepare();
 
         void reset();
diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 7e35d76..3992175 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -50,13 +50,13 @@ SPARQLParser::Pattern::~Pattern()
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter()
     : arg1(0), arg2(0), arg3(0), arg4(0), valueArg(0), pointerToSubquery(0),
-    pointerToSubPattern(0)
+    pointerToSubPattern(0), distinct(false)
       // Constructor
 {
 }
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter(const Filter& other)
-    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern)
+    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern), distinct(other.distinct)
       // Copy-Constructor
 {
     if (other.arg1)
diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index d23e92e..4c077b2 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -338,9 +338,8 @@ static bool createAggregatedFilter(QueryGraph::Filter& output,
         getVars(*args, vars);
     unsigned aggrVar = currentQueryGraph.getAggredateHandler().
         getNewOrExistingVar(
-                f, vars);
+                f, vars, distinct);
     output.type = QueryGraph::Filter::Builtin_aggr;
-    currentQueryGraph.getAggredateHandler().setDistinct(f, distinct);
     output.id = aggrVar;
     return true;
 }
diff --git a/rdf3x/src/rts/AggrFunctions.cpp b/rdf3x/src/rts/AggrFunctions.cpp
index ee121e3..73f95eb 100644
--- a/rdf3x/src/rts/AggrFunctions.cpp
+++ b/rdf3x/src/rts/AggrFunctions.cpp
@@ -23,7 +23,8 @@ AggrFunctions::AggrFunctions(DBLayer& db, Operator* child,
         this->hdl.prepare();
         auto iovars = this->hdl.getInputOutputVars();
         for(auto v : iovars.first) {
-            Register *reg = bindings.find(v)->second;
+            //A variable without register is never bound
+            Register *reg = bindings.count(v) ? bindings.find(v)->second : NULL;
             varsToUpdate.push_back(std::make_pair(v, reg));
         }
         for(auto v : iovars.second) {
@@ -95,6 +96,8 @@ double __getDouble(const std::string &s) {
 
 void AggrFunctions::updateVar(std::pair<unsigned,Register*> &var,
         uint64_t currentCount) {
+    if (!var.second || !~var.second->value)
+        return; //Unbound: not part of the aggregate
     uint64_t value = var.second->value;
     if (!hdl.requiresNumber(var.first)) {
         hdl.updateVarSymbol(var.first, value, currentCount);
diff --git a/src/trident/sparql/aggrhandler.cpp b/src/trident/sparql/aggrhandler.cpp
index 7db66ea..49bcdb1 100644
--- a/src/trident/sparql/aggrhandler.cpp
+++ b/src/trident/sparql/aggrhandler.cpp
@@ -6,18 +6,16 @@
 #include <assert.h>
 #include <set>
 #include <cfloat>
+#include <cstring>
 
 unsigned AggregateHandler::getNewOrExistingVar(AggregateHandler::FUNC funID,
-        std::vector<unsigned> &signature) {
+        std::vector<unsigned> &signature, bool distinct) {
     if (signature.size() != 1) {
         LOG(ERRORL) << "For now, I only support aggregates with one variable in input";
         throw 10;
     }
     unsigned v = signature[0];
-    if (!assignments.count(funID)) {
-        assignments[funID] = std::map<unsigned, unsigned>();
-    }
-    auto &map = assignments[funID];
+    auto &map = assignments[std::make_pair(funID, distinct)];
     if (!map.count(v)) {
         map[v] = varcount;
         varcount++;
@@ -32,11 +30,14 @@ void AggregateHandler::startUpdate() {
 void AggregateHandler::prepare() {
     executions.clear();
     varvalues.resize(64); //Max number of vars
+    for(auto &v : varvalues)
+        v.requiresNumber = false;
     for(auto &el : assignments) {
-        FUNC id = el.first;
+        FUNC id = el.first.first;
         for(auto &assignment : el.second) {
             FunctCall call;
             call.id = id;
+            call.distinct = el.first.second;
             call.inputmask = (uint64_t) 1 << assignment.first;
             call.outputmask = (uint64_t) 1 << assignment.second;
             call.inputvar = assignment.first;
@@ -49,9 +50,7 @@ void AggregateHandler::prepare() {
 		call.arg1_dec = -DBL_MAX;
 	    }
             //Update the variables and mentions if they need to be numberic
-            if (id == COUNT)
-                varvalues[assignment.first].requiresNumber = false;
-            else
+            if (id != COUNT)
                 varvalues[assignment.first].requiresNumber = true;
             executions.push_back(call);
         }
@@ -135,12 +134,13 @@ AggregateHandler::VarValue::TYPE AggregateHandler::getValueType(
 }
 
 bool AggregateHandler::executeFunction(FunctCall &call) {
-    if (distinct[call.id] && varvalues[call.inputvar].type == VarValue::TYPE::SYMBOL) {
-        std::set<uint64_t>::iterator it = sets[call.id].find(varvalues[call.inputvar].v_int);
-        if (it != sets[call.id].end()) {
+    if (call.distinct && varvalues[call.inputvar].type != VarValue::TYPE::NUL) {
+        const VarValue &v = varvalues[call.inputvar];
+        uint64_t bits = v.v_int;
+        if (v.type == VarValue::TYPE::DEC)
+            memcpy(&bits, &v.v_dec, sizeof(bits));
+        if (!call.seen.insert(std::make_pair((int) v.type, bits)).second)
             return false;
-        }
-        sets[call.id].insert(varvalues[call.inputvar].v_int);
     }
     switch (call.id) {
         case FUNC::COUNT:
@@ -171,12 +171,14 @@ bool AggregateHandler::execCount(FunctCall &call) {
         varvalues[call.outputvar].type = VarValue::TYPE::INT;
         return true;
     } else {
-        call.arg1_int += distinct[call.id] ? 1 : varvalues[call.inputvar].v_count;
+        call.arg1_int += call.distinct ? 1 : varvalues[call.inputvar].v_count;
         return false;
     }
 }
 
 bool AggregateHandler::execSum(FunctCall &call) {
+    //Number of rows with this value
+    const int64_t times = call.distinct ? 1 : varvalues[call.inputvar].v_count;
     //Get value of the var in input. If ~0lu, then return true and update the
     //output var
     if (varvalues[call.inputvar].type  == VarValue::TYPE::NUL) {
@@ -193,9 +195,9 @@ bool AggregateHandler::execSum(FunctCall &call) {
         if (varvalues[call.inputvar].type  == VarValue::TYPE::INT) {
             //Check the internal value
             if (call.arg1_bool) {
-                call.arg1_int += varvalues[call.inputvar].v_int;
+                call.arg1_int += times * varvalues[call.inputvar].v_int;
             } else {
-                call.arg1_dec += varvalues[call.inputvar].v_int;
+                call.arg1_dec += times * varvalues[call.inputvar].v_int;
             }
         } else { //Dec
             if (call.arg1_bool) {
@@ -203,13 +205,14 @@ bool AggregateHandler::execSum(FunctCall &call) {
                 call.arg1_dec = call.arg1_int;
                 call.arg1_bool = false;
             }
-            call.arg1_dec += varvalues[call.inputvar].v_dec;
+            call.arg1_dec += times * varvalues[call.inputvar].v_dec;
         }
 	return false;
     }
 }
 
 bool AggregateHandler::execAvg(FunctCall &call) {
+    const int64_t times = call.distinct ? 1 : varvalues[call.inputvar].v_count;
     if (varvalues[call.inputvar].type  == VarValue::TYPE::NUL) {
 	if (call.arg2_int == 0) {
 	    // No values
@@ -226,14 +229,14 @@ bool AggregateHandler::execAvg(FunctCall &call) {
 	}
 	return true;
     } else {
-	call.arg2_int++;
+	call.arg2_int += times;
         //Need to get the numerical value of the input
         if (varvalues[call.inputvar].type  == VarValue::TYPE::INT) {
             //Check the internal value
             if (call.arg1_bool) {
-                call.arg1_int += varvalues[call.inputvar].v_int;
+                call.arg1_int += times * varvalues[call.inputvar].v_int;
             } else {
-                call.arg1_dec += varvalues[call.inputvar].v_int;
+                call.arg1_dec += times * varvalues[call.inputvar].v_int;
             }
         } else { //Dec
             if (call.arg1_bool) {
@@ -241,7 +244,7 @@ bool AggregateHandler::execAvg(FunctCall &call) {
                 call.arg1_dec = call.arg1_int;
                 call.arg1_bool = false;
             }
-            call.arg1_dec += varvalues[call.inputvar].v_dec;
+            call.arg1_dec += times * varvalues[call.inputvar].v_dec;
         }
 	return false;
     }
-- 
2.43.0


From 02c2bc71a25cd8d2bd873e335b9a1cd709ae396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:56 +0000
Subject: [PATCH 104/112] fix: TVec::PrevPerm compared the wrong way and
 reversed past the end

---
 snap/glib-core/ds.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index fc72b80..e0d4675 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -1236,16 +1236,16 @@ bool TVec<TVal, TSizeTy>::PrevPerm() {
   TSizeTy First = 0, Last = Len(), Next = Len()-1;
   if (Last < 2) return false;
   for(; ; ) {
-    // find rightmost element not smaller than successor
+    // find rightmost element greater than successor
     TSizeTy Next1 = Next;
-    if (GetVal(--Next) >= GetVal(Next1)) { // swap with rightmost element that's not smaller, flip suffix
+    if (GetVal(Next1) < GetVal(--Next)) { // swap with rightmost element that's smaller, flip suffix
       TSizeTy Mid = Last;
-      for (; GetVal(Next) < GetVal(--Mid); ) { }
+      for (; !(GetVal(--Mid) < GetVal(Next)); ) { }
       Swap(Next, Mid);
-      Reverse(Next1, Last);
+      Reverse(Next1, Last-1);
       return true;
     }
-    if (Next == First) { // pure descending, flip all
+    if (Next == First) { // pure ascending, flip all
       Reverse();
       return false;
     }
-- 
2.43.0


From e3382fffd88dbb69e6bfab6d614381d8d3d61c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:57 +0000
Subject: [PATCH 105/112] fix: TLst::Ins left the backward link of the
 following node pointing past the new node

---
 snap/glib-core/ds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index e0d4675..67a2e50 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -2659,8 +2659,8 @@ TLstNd<TVal>* TLst<TVal>::Ins(const PLstNd& Nd, const TVal& Val){
   else if (Nd->NextNd==NULL){return AddBack(Val);}
   else {
     PLstNd NewNd=new TLstNd<TVal>(Nd, Nd->NextNd, Val);
-    Nd->NextNd=NewNd; NewNd->NextNd->PrevNd=Nd;
-    Nds++; return Nd;
+    Nd->NextNd=NewNd; NewNd->NextNd->PrevNd=NewNd;
+    Nds++; return NewNd;
   }
 }
 
-- 
2.43.0


From 1c6391c6e32196dc13aba98230127091f18a6e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:07 +0000
Subject: [PATCH 106/112] fix: FILTER NOT IN compared the text of terms with
 the query text, so literals never matched

---
 rdf3x/include/rts/operator/Selection.hpp |  6 +---
 rdf3x/src/cts/CodeGen.cpp                | 11 ++------
 rdf3x/src/cts/SPARQLParser.cpp           |  9 ++----
 rdf3x/src/rts/Selection.cpp              | 36 +++++++++---------------
 4 files changed, 20 insertions(+), 42 deletions(-)

diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index 0d77c72..4e0e3cb 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -567,15 +567,11 @@ class Selection : public Operator {
                 Predicate* probe;
                 /// The set
                 std::vector<Predicate*> args;
-                //If the filter is NOT IN, then I use the strings instead of args.
-                //I know, it's a dirty patch. I hope I'll get time to fix it properly.
-                std::set<std::string> strings;
                 const bool in;
             public:
                 /// Constructor
                 BuiltinIn(Predicate* probe, const std::vector<Predicate*>& args,
-                        std::set<std::string> &strings, bool in) : probe(probe), args(args),
-                strings(strings), in(in) {}
+                        bool in) : probe(probe), args(args), in(in) {}
 
                 /// Register the selection
                 void setSelection(Selection* selection);
diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 666dfb8..6115288 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -591,18 +591,13 @@ static Selection::Predicate* buildSelection(Runtime &runtime, const map<unsigned
                                            return new Selection::BuiltinReplace(buildSelection(runtime,bindings, *filter.arg1, plan, registers), buildSelection(runtime,bindings, *filter.arg2, plan, registers), filter.arg3 ? buildSelection(runtime,bindings, *filter.arg3, plan, registers) : 0, filter.arg4 ? buildSelection(runtime,bindings, *filter.arg4, plan, registers) : 0);
         case QueryGraph::Filter::Builtin_in: {
                                                  vector<Selection::Predicate*> args;
-                                                 set<string> strings;
                                                  collectSelectionArgs(runtime, bindings, args, filter.arg2, plan, registers);
-                                                 return new Selection::BuiltinIn(buildSelection(runtime,bindings, *filter.arg1, plan, registers), args, strings, true);
+                                                 return new Selection::BuiltinIn(buildSelection(runtime,bindings, *filter.arg1, plan, registers), args, true);
                                              }
         case QueryGraph::Filter::Builtin_notin: {
                                                     vector<Selection::Predicate*> args;
-                                                    set<string> strings;
-                                                    for (const QueryGraph::Filter* iter = filter.arg2; iter; iter = iter->arg1) {
-                                                        assert(iter->type == QueryGraph::Filter::ArgumentList);
-                                                        strings.insert(iter->value);
-                                                    }
-                                                    return new Selection::BuiltinIn(buildSelection(runtime,bindings, *filter.arg1, plan, registers), args, strings, false);
+                                                    collectSelectionArgs(runtime, bindings, args, filter.arg2, plan, registers);
+                                                    return new Selection::BuiltinIn(buildSelection(runtime,bindings, *filter.arg1, plan, registers), args, false);
                                                 }
         case QueryGraph::Filter::Builtin_xsddecimal:
                                                 return new Selection::BuiltinXSD(buildSelection(runtime,bindings, *filter.arg1, plan, registers));
diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 3992175..bd68b42 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1062,7 +1062,6 @@ SPARQLParser::Filter* SPARQLParser::parseRelationalExpression(map<string, unsign
                         if (lexer.getNext() != SPARQLLexer::LParen)
                             throw ParserException("'(' expected");
 
-                        PatternGroup group;
                         if (lexer.hasNext(SPARQLLexer::RParen)) {
                             lexer.getNext();
                         } else {
@@ -1073,15 +1072,13 @@ SPARQLParser::Filter* SPARQLParser::parseRelationalExpression(map<string, unsign
                             unique_ptr<Filter> args(new Filter);
                             Filter* tail = args.get();
                             tail->type = Filter::ArgumentList;
-                            Element element = parsePatternElement(group, localVars);
-                            tail->value = element.value;
+                            tail->arg1 = parseExpression(localVars);
                             while (true) {
                                 if (lexer.hasNext(SPARQLLexer::Comma)) {
                                     lexer.getNext();
-                                    tail = tail->arg1 = new Filter;
+                                    tail = tail->arg2 = new Filter;
                                     tail->type = Filter::ArgumentList;
-                                    Element element = parsePatternElement(group, localVars);
-                                    tail->value = element.value;
+                                    tail->arg1 = parseExpression(localVars);
                                 } else {
                                     if (lexer.getNext() != SPARQLLexer::RParen)
                                         throw ParserException("')' expected");
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 6ba1cdd..3178995 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -1111,32 +1111,22 @@ void Selection::BuiltinIn::eval(Result& result)
     Result p, c;
     probe->eval(p);
 
-    if (in) {
-        for (vector<Predicate*>::iterator iter = args.begin(), limit = args.end(); iter != limit; ++iter) {
-            (*iter)->eval(c);
-            if (p.hasId() && c.hasId()) {
-                if (p.id == c.id) {
-                    result.setBoolean(true);
-                    return;
-                }
-            } else {
-                p.ensureString(selection);
-                c.ensureString(selection);
-                if (p.value == c.value) {
-                    result.setBoolean(true);
-                    return;
-                }
-            }
-        }
-        result.setBoolean(false);
-    } else {
-        p.ensureString(selection);
-        if (strings.find(p.value) == strings.end()) {
-            result.setBoolean(true);
+    for (vector<Predicate*>::iterator iter = args.begin(), limit = args.end(); iter != limit; ++iter) {
+        (*iter)->eval(c);
+        bool equal;
+        if (p.hasId() && c.hasId()) {
+            equal = p.id == c.id;
         } else {
-            result.setBoolean(false);
+            p.ensureString(selection);
+            c.ensureString(selection);
+            equal = p.value == c.value;
+        }
+        if (equal) {
+            result.setBoolean(in);
+            return;
         }
     }
+    result.setBoolean(!in);
 }
 //---------------------------------------------------------------------------
 string Selection::BuiltinIn::print(PlanPrinter& out)
-- 
2.43.0


From ef0e3c05a5e668cf59d65b5a0a8993d9f5f87668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:15 +0000
Subject: [PATCH 107/112] fix: TridentLayer::lookupById(buffer) decided IRI or
 literal from another buffer and never stripped the brackets

---
 src/layers/TridentLayer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 85fa230..b1aecb6 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -28,6 +28,7 @@
 #include <layers/TridentLayer.hpp>
 #include <infra/util/Type.hpp>
 #include <string>
+#include <cstring>
 #include <map>
 #include <cmath>
 #include <limits>
@@ -122,9 +123,9 @@ bool TridentLayer::lookupById(uint64_t id,
     //Subtypes are not supported. Set default value to zero.
     subType = 0;
     if (resp) {
-        if (supportBuffer[0] == '<') {
-            output = output + 1;
+        if (output[0] == '<') {
             length -= 2;
+            memmove(output, output + 1, length);
             type = ::Type::ID::URI;
         } else {
             type = ::Type::ID::Literal;
-- 
2.43.0


From c784e10689d0e66307cb0b24bcb95cdfb49887be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:24 +0000
Subject: [PATCH 108/112] fix: queries joining patterns on more than two
 positions threw while estimating the selectivity

---
 src/layers/TridentLayer.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index b1aecb6..501c852 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -729,6 +729,20 @@ double TridentLayer::getJoinSelectivity(bool valueL1,
     if (card1 == 0 || card2 == 0)
         return 0;
 
+    //The samples can be joined only on one or two fields. If there are more
+    //(e.g., because of repeated variables), I use the simple estimate.
+    int njoins = 0;
+    const bool consts1[] = {valueL1, value2L, value3L};
+    const uint64_t vars1[] = {value1CL, value2CL, value3CL};
+    const bool consts2[] = {value1R, value2R, value3R};
+    const uint64_t vars2[] = {value1CR, value2CR, value3CR};
+    for (int i = 0; i < 3; ++i)
+        for (int j = 0; j < 3; ++j)
+            if (!consts1[i] && !consts2[j] && vars1[i] == vars2[j])
+                njoins++;
+    if (njoins < 1 || njoins > 2)
+        return card1 * card2;
+
     if (sampleT1 && sampleT2) {
         //Do bifocal sampling
         double cost = bifocalSampling(valueL1,
-- 
2.43.0


From 5cc7d8b24015aedc8b73742b1c36e4d3b9b4a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:44 +0000
Subject: [PATCH 109/112] fix: queries with a pattern of one constant and two
 unused variables threw on a knowledge base

---
 src/layers/TridentLayer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 501c852..5a03862 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -1153,7 +1153,7 @@ bool TridentScan::first() {
 }
 
 bool TridentScan::first(uint64_t el, bool constrained) {
-    if (a != DBLayer::Aggr_t::AGGR_NO)
+    if (a == DBLayer::Aggr_t::AGGR_SKIP_LAST)
         throw 10; //Not supported
 
     if (constrained)
@@ -1161,6 +1161,11 @@ bool TridentScan::first(uint64_t el, bool constrained) {
     else
         itr = q->getPermuted(perm, -1, -1, -1, false);
 
+    if (a == DBLayer::Aggr_t::AGGR_SKIP_2LAST) {
+        //The counts of the different second terms add up to the count of el
+        itr->ignoreSecondColumn();
+    }
+
     if (itr->hasNext()) {
         itr->next();
         return true;
-- 
2.43.0


From d217dd788f17c006905f510505dd8f2cf6c2f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:30 +0000
Subject: [PATCH 110/112] fix: B+ tree nodes lost or invented keys when a
 consecutive node was split, extended or shrunk after being reloaded

---
 include/trident/tree/node.h |  3 ++
 src/trident/tree/node.cpp   | 89 ++++++++++++++++---------------------
 2 files changed, 42 insertions(+), 50 deletions(-)

diff --git a/include/trident/tree/node.h b/include/trident/tree/node.h
index c1dcaed..d8a8622 100644
--- a/include/trident/tree/node.h
+++ b/include/trident/tree/node.h
@@ -53,6 +53,9 @@ private:
     int consecutiveStep;
     char state;
 
+    //Fill keys with the values represented by the consecutive sequence
+    void makeNonConsecutive();
+
 protected:
     int pos(int64_t key);
 
diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index cfb881c..79f1e33 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -137,11 +137,8 @@ int Node::serialize(char* bytes, int pos) {
         if (getCurrentSize() > 1) {
             // Check if we can make it consecutive
             uint8_t step = 0;
-            if (consecutive
-                    || (keys[0] == 1
-                        && keys[getCurrentSize() - 2]
-                        == getCurrentSize() - 1)) {
-                step = 1;
+            if (consecutive) {
+                step = (uint8_t) consecutiveStep;
             } else {
                 if (keys[0] > 0 && keys[0] < 256 && keys[getCurrentSize() - 2] % keys[0] == 0
                         && keys[getCurrentSize() - 2] / keys[0]
@@ -225,13 +222,17 @@ void Node::split(Node *node) {
     currentSize = node->currentSize = context->getMinElementsPerNode();
 
     if (consecutive) {
-        node->firstKey = firstKey + currentSize;
+        node->firstKey = firstKey + (int64_t) currentSize * consecutiveStep;
         node->consecutive = true;
+        node->consecutiveStep = consecutiveStep;
     } else {
         node->firstKey = firstKey + keys[currentSize - 1];
-        if (keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
+        //The positions of textual keys are not sorted
+        if (!context->textKeys()
+                && keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
                 + 1 == currentSize) {
             node->consecutive = true;
+            node->consecutiveStep = 1;
         } else {
             node->consecutive = false;
             if (node->keys == NULL) {
@@ -245,45 +246,42 @@ void Node::split(Node *node) {
     }
 }
 
+void Node::makeNonConsecutive() {
+    if (keys == NULL) {
+        keys = context->getNodesKeyFactory()->get();
+    }
+    for (int i = 0; i < getCurrentSize() - 1; ++i) {
+        keys[i] = (int64_t) (i + 1) * consecutiveStep;
+    }
+    consecutive = false;
+    consecutiveStep = 1;
+}
+
 void Node::putkeyAt(nTerm key, int pos) {
+    if (consecutive) {
+        if (getCurrentSize() <= 1) {
+            consecutiveStep = 1;
+        }
+        if (getCurrentSize() > 0 && (pos != getCurrentSize()
+                || key != firstKey + (int64_t) pos * consecutiveStep)) {
+            makeNonConsecutive();
+        }
+    }
     if (pos == 0) {
         // Need to change the first key
         if (getCurrentSize() == 0) {
             firstKey = key;
         } else {
-            if (consecutive) {
-                int64_t diff = firstKey - key;
-//              keys = new int64_t[context->getMaxElementsPerNode() - 1];
-                keys = context->getNodesKeyFactory()->get();
-                keys[0] = diff;
-                for (int i = 1; i < getCurrentSize(); ++i) {
-                    keys[i] = diff + i;
-                }
-                firstKey = key;
-                consecutive = false;
-            } else {
-                memmove(keys + 1, keys, sizeof(int64_t) * (currentSize - 1));
-                int64_t diff = firstKey - key;
-                keys[0] = diff;
-                for (int i = 1; i < getCurrentSize(); ++i) {
-                    keys[i] += diff;
-                }
-                firstKey = key;
+            memmove(keys + 1, keys, sizeof(int64_t) * (currentSize - 1));
+            int64_t diff = firstKey - key;
+            keys[0] = diff;
+            for (int i = 1; i < getCurrentSize(); ++i) {
+                keys[i] += diff;
             }
+            firstKey = key;
         }
     } else {
-        if (consecutive) {
-            int64_t diff = key - firstKey;
-            if (pos != diff) {
-                consecutive = false;
-//              keys = new int64_t[context->getMaxElementsPerNode() - 1];
-                keys = context->getNodesKeyFactory()->get();
-                for (int i = 0; i < getCurrentSize() - 1; ++i) {
-                    keys[i] = i + 1;
-                }
-                keys[pos - 1] = diff;
-            }
-        } else {
+        if (!consecutive) {
             if (pos < getCurrentSize()) {
                 memmove(keys + pos, keys + pos - 1,
                         sizeof(int64_t) * (currentSize - pos));
@@ -305,20 +303,11 @@ void Node::removeKeyAtPos(int pos) {
     if (getCurrentSize() > 1 && pos < getCurrentSize() - 1) {
         if (consecutive) {
             if (pos == 0) {
-                firstKey += 1;
+                firstKey += consecutiveStep;
             } else {
-                if (keys == NULL) {
-//                  keys = new int64_t[context->getMaxElementsPerNode() - 1];
-                    keys = context->getNodesKeyFactory()->get();
-                }
-                // up to pos -1 fill keys with 1s
-                for (int i = 0; i < pos - 1; ++i) {
-                    keys[i] = i + 1;
-                }
-                for (int i = pos - 1; i < getCurrentSize() - 2; ++i) {
-                    keys[i] = i + 2;
-                }
-                consecutive = false;
+                makeNonConsecutive();
+                memmove(keys + pos - 1, keys + pos,
+                        (getCurrentSize() - 1 - pos) * sizeof(int64_t));
             }
         } else {
             if (pos == 0) {
-- 
2.43.0


From f5f064c2857c1c68331d338b47dcd9845a57d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:30 +0000
Subject: [PATCH 111/112] fix: looking up the position of an intermediate node
 loaded leaves, which could end an iteration early

---
 src/trident/tree/intermediatenode.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/trident/tree/intermediatenode.cpp b/src/trident/tree/intermediatenode.cpp
index 480c365..8f8d8b8 100644
--- a/src/trident/tree/intermediatenode.cpp
+++ b/src/trident/tree/intermediatenode.cpp
@@ -108,6 +108,17 @@ int IntermediateNode::getPosChild(Node *child) {
         return lastUpdatedChild + 1;
     }
 
+    if (child->canHaveChildren()) {
+        //Do not load any leaf to know its smallest key: this could offload the
+        //leaves that are being used
+        for (int i = 0; i <= getCurrentSize(); ++i) {
+            if (children[i] == child) {
+                return i;
+            }
+        }
+        return CHILD_NOT_FOUND;
+    }
+
     int p = 0;
     if (!getContext()->textKeys()) {
         p = pos(child->smallestNumericKey());
-- 
2.43.0


From 08707bed0630f823b8f9ca65560063903eea6242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:30 +0000
Subject: [PATCH 112/112] fix: StringBuffer lost its last block when it was
 full, and could miss the wake-up of its thread on close

---
 src/trident/tree/stringbuffer.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index bf7b716..413547c 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -379,13 +379,9 @@ void StringBuffer::uncompressBlock(int b) {
     }
 
     char *uncompressedBuffer = factory.get();
-    int sizeUncompressed = SB_BLOCK_SIZE;
-    if (b == sizeCompressedBlocks.size() - 1) {
-        sizeUncompressed = uncompressedSize % SB_BLOCK_SIZE;
-    }
     int bytesUncompressed = LZ4_decompress_safe(uncompressSupportBuffer,
                             uncompressedBuffer,
-                            length, sizeUncompressed);
+                            length, SB_BLOCK_SIZE);
     stats->incrNReadIndexBlocks();
     stats->addNReadIndexBytes(length);
     if (bytesUncompressed < 0) {
@@ -582,8 +578,8 @@ int StringBuffer::cmp(int64_t pos, char *string, int sizeString) {
 
 StringBuffer::~StringBuffer() {
     if (!readOnly) {
-        int usedSize = uncompressedSize % SB_BLOCK_SIZE;
-        if (usedSize > 0) {
+        //If the last block is full, then it was not yet sent for compression
+        if (writingCurrentBufferSize > 0) {
             compressLastBlock();
         }
 
@@ -591,14 +587,10 @@ StringBuffer::~StringBuffer() {
         while (bufferToCompress != NULL) {
             compressWait.wait(lock);
         }
-        lock.unlock();
-
-        compressionThread.detach();
         bufferToCompress = FINISH_THREAD;
+        lock.unlock();
         compressWait.notify_one();
-
-        std::unique_lock<std::mutex> lock2(_compressTerm);
-        compressTerm.wait(lock2, std::bind(&StringBuffer::isThreadFinished, this));
+        compressionThread.join();
 
         sb.flush();
         sb.close();
-- 
2.43.0

