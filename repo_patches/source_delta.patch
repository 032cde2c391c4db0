From 58c9783b173a37a0af7cef481b1cdb5bece3bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 1/5] fix: cend()/crend() no longer recurse forever

---
 include/indexes/btree/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f37acdf..5ee9a74 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -894,7 +894,7 @@ public:
 
   inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
 
-  inline const_iterator cend() const { return end(); }
+  inline const_iterator cend() const { return {this, nullptr, 0}; }
 
   inline const_iterator begin() const { return cbegin(); }
 
@@ -912,7 +912,7 @@ public:
     return {this, leaf, leaf->num_values - 1};
   }
 
-  inline const_reverse_iterator crend() const { return end(); }
+  inline const_reverse_iterator crend() const { return {this, nullptr, 0}; }
 
   inline const_reverse_iterator rbegin() const { return crbegin(); }
 
-- 
2.43.0


From a84622c024240e1e5fda14bbf1e7b3ce4dd306a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 2/5] fix: iteration skips leaves emptied by erase; rbegin() of
 an empty map

---
 include/indexes/btree/map.h | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 5ee9a74..b76a817 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -723,7 +723,9 @@ public:
     friend class map;
 
     void increment() {
-      if (++m_curslot >= m_leaf->num_values) {
+      ++m_curslot;
+
+      while (m_leaf && m_curslot >= m_leaf->num_values) {
         if (this->m_leaf->highkey) {
           m_leaf = m_bt->get_next_leaf(m_leaf);
           m_curslot = 0;
@@ -735,7 +737,9 @@ public:
     }
 
     void decrement() {
-      if (--m_curslot < 0) {
+      --m_curslot;
+
+      while (m_leaf && m_curslot < 0) {
         if (this->m_leaf->lowkey) {
           m_leaf = m_bt->get_prev_leaf(this->m_leaf);
           m_curslot = m_leaf->num_values - 1;
@@ -888,11 +892,19 @@ public:
     return end();
   }
 
-  inline iterator begin() { return {this, get_first_leaf(), 0}; }
+  inline iterator begin() {
+    iterator it = {this, get_first_leaf(), 0};
+
+    return it.m_leaf && it.m_leaf->num_values == 0 ? ++it : it;
+  }
 
   inline iterator end() { return {this, nullptr, 0}; }
 
-  inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
+  inline const_iterator cbegin() const {
+    const_iterator it = {this, get_first_leaf(), 0};
+
+    return it.m_leaf && it.m_leaf->num_values == 0 ? ++it : it;
+  }
 
   inline const_iterator cend() const { return {this, nullptr, 0}; }
 
@@ -902,14 +914,26 @@ public:
 
   inline reverse_iterator rbegin() {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+
+    if (leaf == nullptr)
+      return rend();
+
+    reverse_iterator it = {this, leaf, leaf->num_values - 1};
+
+    return leaf->num_values == 0 ? ++it : it;
   }
 
   inline reverse_iterator rend() { return end(); }
 
   inline const_reverse_iterator crbegin() const {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+
+    if (leaf == nullptr)
+      return crend();
+
+    const_reverse_iterator it = {this, leaf, leaf->num_values - 1};
+
+    return leaf->num_values == 0 ? ++it : it;
   }
 
   inline const_reverse_iterator crend() const { return {this, nullptr, 0}; }
-- 
2.43.0


From ba242dc925fcc278a347010e36624e1c7ed45a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 3/5] fix: construct the value of a newly inserted element

---
 include/indexes/btree/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index b76a817..f904994 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -262,7 +262,7 @@ private:
         int current_value_offset =
             this->last_value_offset - sizeof(key_value_t);
 
-        new (opaque() + current_value_offset) key_type{key};
+        new (opaque() + current_value_offset) key_value_t{key, value_t{}};
 
         std::copy_backward(slots + pos, slots + this->num_values,
                            slots + this->num_values + 1);
-- 
2.43.0


From 7a2c809f165aaa956f50ddfe1cb06b2b46d68db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 4/5] fix: release node storage the way it was allocated

---
 include/indexes/btree/map.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f904994..bc0c87e 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -80,9 +80,11 @@ private:
 
     static void free(node_t *node) {
       if (node->isLeaf())
-        delete ASLEAF(node);
+        ASLEAF(node)->~leaf_node_t();
       else
-        delete ASINNER(node);
+        ASINNER(node)->~inner_node_t();
+
+      delete[] reinterpret_cast<char *>(node);
     }
   };
 
-- 
2.43.0


From ad7d29088f6ff8a4368f3f3787329206d20de323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 5/5] fix: ART insert replaces a full parent at its own byte in
 the grandparent

---
 include/indexes/art/map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 5588a75..f77d4df 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -612,7 +612,8 @@ private:
         parent->add(node, ind);
 
         if (grand_parent)
-          grand_parent->update(parent, node_t::get_ind(node->key, depth - 1));
+          grand_parent->update(
+              parent, node_t::get_ind(node->key, depth - parent->keylen));
         else
           root = parent;
 
-- 
2.43.0

