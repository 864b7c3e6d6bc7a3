From ef5602a24899eada470bbfab09ea210e15a62de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 01/34] fix: building a linked list from another one copies its
 nodes

---
 extra/lists/doubly_linked_list.py | 5 -----
 extra/lists/linked_list.py        | 4 ----
 2 files changed, 9 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index b17d171..3a12ec3 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -207,11 +207,6 @@ class DoublyLinkedList(LinkedList):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a DoublyLinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
-            self._tail = iterable._tail
         else:
             self._head = None
             self._tail = None
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 8a10560..77440a9 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -222,10 +222,6 @@ class LinkedList(Extra):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a LinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
         else:
             self._head = None
             self._length = 0
-- 
2.43.0


From a488808ec14ea991bc700f9d659667636b5760b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 02/34] fix: extending a linked list copies the nodes of the
 other list

---
 extra/lists/circular_linked_list.py |  2 +-
 extra/lists/doubly_linked_list.py   | 14 +++-----------
 extra/lists/linked_list.py          | 17 ++++++-----------
 3 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 58dbc76..729d297 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -874,7 +874,7 @@ class CircularLinkedList(LinkedList):
                 curr_node = curr_node.get_next()
             prev_node = curr_node
             # now, let's add the new values
-            for item in other:
+            for item in other.to_list():
                 new_node = self._basic_node(item)
                 self._insert_node(prev_node, new_node)
                 prev_node = new_node
diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 3a12ec3..39b024e 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -954,7 +954,8 @@ class DoublyLinkedList(LinkedList):
     def extend(self, other):
         """
         Extends the current `DoublyLinkedList()` instance by appending the
-        elements of the other `DoublyLinkedList()` instance in constant time.
+        elements of the other `DoublyLinkedList()` instance in time-complexity of
+        O(k) where **k** is the length of the other instance.
 
         Parameters
         ----------
@@ -984,16 +985,7 @@ class DoublyLinkedList(LinkedList):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
-        if other.is_empty():
-            pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._tail = other._tail
-            self._length += other._length
-        else:
-            self._tail.set_next(other._head)
-            self._tail = other._tail
-            self._length += other._length
+        super().extend(other)
 
     # =============================      SET     ==============================
     def __setitem__(self, idx, item):
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 77440a9..d058e4b 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1364,8 +1364,9 @@ class LinkedList(Extra):
     def extend(self, other):
         """
         Extends the current `LinkedList()` instance by appending the elements
-        of the other `LinkedList()` instance in time-complexity of O(n) where
-        **n** is the lengh of the current instance.
+        of the other `LinkedList()` instance in time-complexity of O(n+k)
+        where **n** is the lengh of the current instance and **k** is the
+        length of the other one.
 
         Parameters
         ----------
@@ -1399,15 +1400,9 @@ class LinkedList(Extra):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
-        if other.is_empty():
-            pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._length = other._length
-        else:
-            last_node, _ = self._get_node(self._length)
-            last_node.set_next(other._head)
-            self._length += other._length
+        last_node, _ = self._get_node(self._length)
+        for item in other.to_list():
+            last_node = self._insert_value(last_node, item)
 
     # =============================     SET      ==============================
     def _replace_value(self, idx, new_value):
-- 
2.43.0


From 47b22cfb9b2b0052de957a8f034f6890ec376648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 03/34] fix: slices of linked lists with a negative step

---
 extra/lists/linked_list.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index d058e4b..f66c4ce 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1108,6 +1108,9 @@ class LinkedList(Extra):
         self._validate_index(idx, accept_negative=True, accept_slice=True)
         if isinstance(idx, slice):
             indices = range(*idx.indices(self._length))
+            descending = indices.step < 0
+            if descending:
+                indices = indices[::-1]
             max_idx = indices[-1] if indices else -1
             indices = set(indices)
             # start getting wanted nodes
@@ -1117,8 +1120,11 @@ class LinkedList(Extra):
             out_llist = self._create_instance()
             while counter <= max_idx:
                 if counter in indices:
-                    prev_node = out_llist._insert_value(prev_node,
-                                                        curr_node.get_data())
+                    # items of a descending slice are put in front
+                    prev_node = out_llist._insert_value(
+                        None if descending else prev_node,
+                        curr_node.get_data()
+                    )
                 curr_node = curr_node.get_next()
                 counter += 1
             return out_llist
-- 
2.43.0


From 8c5667e01c12ab3c17527630d6b6b589a33fc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 04/34] fix: a longer linked list may be greater than a shorter
 one

---
 extra/lists/linked_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index f66c4ce..2a695e0 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -814,7 +814,7 @@ class LinkedList(Extra):
         if all_equal:
             return True if self._length > other._length else False
         else:
-            return True if idx == self._length else False
+            return True if idx == other._length else False
 
     def __ge__(self, other):
         """
-- 
2.43.0


From 56948be335400995b8ad25c891cfa8d5bc6fe32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 05/34] fix: rotate_right checks the type of its inplace flag

---
 extra/lists/linked_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 2a695e0..1834b80 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -2107,6 +2107,8 @@ class LinkedList(Extra):
         │ 2 │⟶│ 3 │⟶│ 4 │⟶│ 1 │⟶
         └───┘ └───┘ └───┘ └───┘
         """
+        if type(inplace) != bool:
+            raise TypeError("`inplace` is a boolean flag (True by default)!!")
         self._validate_rotation_distance(distance)
         rotated = self._rotate(distance, "RIGHT")
         if not inplace:
-- 
2.43.0


From b30b269915bbfdfb84146b81973c776dc24c70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:13 +0000
Subject: [PATCH 06/34] fix: setting an item of an empty circular list is an
 index error

---
 extra/lists/circular_linked_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 729d297..a84550a 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -932,6 +932,8 @@ class CircularLinkedList(LinkedList):
            └──────────────────┘
         """
         self._validate_index(idx)
+        if self.is_empty():
+            raise IndexError(f"{self.__name__} is empty!!")
         idx = idx % self._length if self._length != 0 else 0
         super()._replace_value(idx, item)
 
-- 
2.43.0


From 595b710529377e945398b8eeec42763a72f80fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:50 +0000
Subject: [PATCH 07/34] fix: an emptied doubly linked list (and queue) drops
 its last node

---
 extra/lists/doubly_linked_list.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 39b024e..5e88b7a 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1077,8 +1077,7 @@ class DoublyLinkedList(LinkedList):
         next_node = node_to_be_removed.get_next()
         # if node to be removed is the first
         if self._length == 1:
-            # NOTE: don't use set_data() here
-            self._head.data = self._tail.data = None
+            self._head = self._tail = None
             self._length -= 1
         elif self._length == 2:
             if prev_node is None:
-- 
2.43.0


From fc5cd07943c1be6fe2a59a5379920e025dfff4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 08/34] fix: removing the head of a priority queue keeps the
 other priorities

---
 extra/lists/doubly_linked_list.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 5e88b7a..3e4759a 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1092,6 +1092,10 @@ class DoublyLinkedList(LinkedList):
                 prev_node.set_next(next_node)
                 self._tail = prev_node
                 self._length -= 1
+            elif prev_node is None:
+                next_node.set_prev(None)
+                self._head = next_node
+                self._length -= 1
             else:
                 super()._remove_node(prev_node, node_to_be_removed)
 
-- 
2.43.0


From 5d9884097b8bb186ee7eede04b94b62859ae9855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:56 +0000
Subject: [PATCH 09/34] fix: priority queue tracks its extreme priorities on
 every removal

---
 extra/lists/priority_queue.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index 62d1b94..5f3bb21 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -369,9 +369,14 @@ class PriorityQueue(Queue):
         super()._validate_item(item)
         self.__validate_priority(priority)
         node = PriorityNode(item, priority)
-        self._min_priority = min(self._min_priority, node.get_priority())
-        self._max_priority = max(self._max_priority, node.get_priority())
+        was_full = self.is_full()
         super()._enqueue(node)
+        if was_full:  # a node could have been dropped
+            self._update_min_priority()
+            self._update_max_priority()
+        else:
+            self._min_priority = min(self._min_priority, node.get_priority())
+            self._max_priority = max(self._max_priority, node.get_priority())
 
     # =============================      TOP     ==============================
     def top(self):
@@ -483,16 +488,16 @@ class PriorityQueue(Queue):
                         node_data = curr_node.get_data()
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
-                        self._update_min_priority()
                         break
                 else:
                     if curr_node.get_priority() == self._max_priority:
                         node_data = curr_node.get_data()
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
-                        self._update_max_priority()
                         break
                 curr_node = curr_node.get_next()
+            self._update_min_priority()
+            self._update_max_priority()
         return node_data
 
     def clear(self):
-- 
2.43.0


From 5f525ff6036ec462def5dd57f93f377970e9650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 10/34] fix: setting an item of a circular list validates the
 item

---
 extra/lists/circular_linked_list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index a84550a..d8b2acf 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -934,6 +934,7 @@ class CircularLinkedList(LinkedList):
         self._validate_index(idx)
         if self.is_empty():
             raise IndexError(f"{self.__name__} is empty!!")
+        self._validate_item(item)
         idx = idx % self._length if self._length != 0 else 0
         super()._replace_value(idx, item)
 
-- 
2.43.0


From 8e5d61a1fe9a34f4daf12be9abe2ac702894e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 11/34] fix: building a skip list from another one copies its
 items

---
 extra/lists/skip_list.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 4c7fc26..889f7b7 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -295,9 +295,6 @@ class SkipList(Extra):
             self._num_levels = 1
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            self._level_lists = iterable._level_lists
-            self._num_levels = iterable._num_levels
         else:
             ll = LinkedList()
             ll._insert_node(ll._head, self._basic_node(float("-inf")))
-- 
2.43.0


From 1fce467dd8b9ec489955715c0a1ee45be18faf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 12/34] fix: a skip list's left boundary is not one of its
 items

---
 extra/lists/skip_list.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 889f7b7..04a04b2 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -698,7 +698,8 @@ class SkipList(Extra):
         start_node = top_list._head
         while (start_node.get_down() is not None):
             prev_node, found_node = search_sorted(prev_node, start_node, value)
-            if found_node.get_data() == value:
+            # NOTE: only the left boundary (-∞) has no previous node
+            if prev_node is not None and found_node.get_data() == value:
                 return prev_node, found_node, last_accessed_nodes
             last_accessed_nodes.append(found_node)
             start_node = found_node.get_down()
@@ -743,8 +744,8 @@ class SkipList(Extra):
         if type(value) not in {int, float}:
             return False
         self._validate_item(value)
-        _, found_node, _ = self._search(value)
-        return found_node.get_data() == value
+        prev_node, found_node, _ = self._search(value)
+        return prev_node is not None and found_node.get_data() == value
 
     def __getitem__(self, idx):
         """
@@ -895,9 +896,9 @@ class SkipList(Extra):
         """
         self._validate_item(value)
         # search for that value
-        _, found_node, last_accessed_nodes = self._search(value)
+        prev_node, found_node, last_accessed_nodes = self._search(value)
         # `value` already exists in our SkipList
-        if found_node.get_data() == value:
+        if prev_node is not None and found_node.get_data() == value:
             return
         # create new_node with the new value
         new_node = self._basic_node(value)
@@ -982,7 +983,7 @@ class SkipList(Extra):
         prev_node, found_node, last_accessed_nodes = self._search(value)
         # NOTE: len(last_accessed_nodes) can be used to get the level where
         #  this value was found
-        if found_node.get_data() == value:
+        if prev_node is not None and found_node.get_data() == value:
             level = self._num_levels - 1 - len(last_accessed_nodes)
             while level >= 0:
                 curr_level_list = self._level_lists[level]
-- 
2.43.0


From 553e6ec33ed0b69492681796d5b3daa5ab40c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 13/34] fix: searching an empty tree finds nothing

---
 extra/trees/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index 89cea00..4af47d4 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -1061,6 +1061,8 @@ class Tree(Extra):
         >>> 50 in t
         False
         """
+        if self.is_empty():
+            return False
         found_node = self._search(value)
         return True if found_node is not None else False
 
-- 
2.43.0


From c140c24c00dd9efae39c7f43675eaa6492686907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:02 +0000
Subject: [PATCH 14/34] fix: balance of a binary tree whose root has one child

---
 extra/trees/binary_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/extra/trees/binary_tree.py b/extra/trees/binary_tree.py
index 71e16fb..e2cdc1d 100644
--- a/extra/trees/binary_tree.py
+++ b/extra/trees/binary_tree.py
@@ -742,17 +742,17 @@ class BinaryTree(Tree):
                 UserWarning,
             )
             return True
-        left_depth = (
+        left_height = (
             0
             if self._root.get_left() is None
-            else 1 + super()._get_depth(self._root.get_left())
+            else 1 + super()._get_height(self._root.get_left())
         )
-        right_depth = (
+        right_height = (
             0
             if self._root.get_right() is None
-            else 1 + super()._get_depth(self._root.get_right())
+            else 1 + super()._get_height(self._root.get_right())
         )
-        return abs(left_depth - right_depth) <= 1
+        return abs(left_height - right_height) <= 1
 
     # =============================    PERFECT   ==============================
     def is_perfect(self):
-- 
2.43.0


From 238dde1f524d8328521359beb99482beb863f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 15/34] fix: measuring a deep tree doesn't exceed the recursion
 limit

---
 extra/trees/tree.py | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index 4af47d4..b0aeb29 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -413,7 +413,7 @@ class Tree(Extra):
     # =============================    LENGTH    ==============================
     def __count_nodes(self, start_node):
         """
-        Recurrsively, cunts the number of `TreeNode()` instances found in the
+        Counts the number of `TreeNode()` instances found in the
         `Tree()` object.
 
         Parameters
@@ -435,9 +435,11 @@ class Tree(Extra):
         """
         assert isinstance(start_node, TreeNode)
 
-        total_nodes = 1
-        for child in start_node.get_children():
-            total_nodes += self.__count_nodes(child)
+        total_nodes = 0
+        stack = [start_node]
+        while stack:
+            total_nodes += 1
+            stack.extend(stack.pop().get_children())
         return total_nodes
 
     def __len__(self):
@@ -669,9 +671,13 @@ class Tree(Extra):
         """
         assert isinstance(start_node, TreeNode)
 
-        height = 0
-        for child in start_node.get_children():
-            height = max(height, 1 + self._get_height(child))
+        height = -1
+        level_nodes = [start_node]
+        while level_nodes:
+            height += 1
+            level_nodes = [
+                child for node in level_nodes for child in node.get_children()
+            ]
         return height
 
     def get_height(self):
@@ -841,11 +847,13 @@ class Tree(Extra):
         """
         assert isinstance(start_node, TreeNode)
 
-        if start_node.is_leaf():
-            return 1
         total_nodes = 0
-        for child in start_node.get_children():
-            total_nodes += self._count_leaf_nodes(child)
+        stack = [start_node]
+        while stack:
+            curr_node = stack.pop()
+            if curr_node.is_leaf():
+                total_nodes += 1
+            stack.extend(curr_node.get_children())
         return total_nodes
 
     def count_leaf_nodes(self):
@@ -1096,18 +1104,17 @@ class Tree(Extra):
         assert type(level) == int and level >= 0
         assert type(nodes) == list
 
-        if start_node is not None:
+        stack = [(start_node, level)]
+        while stack:
+            curr_node, level = stack.pop()
             if level == len(nodes):
                 nodes.append([])
             if save_data:
-                nodes[level].append(start_node.get_data())
+                nodes[level].append(curr_node.get_data())
             else:
-                nodes[level].append(start_node)
-            for child in start_node.get_children():
-                self._get_nodes_per_level(child,
-                                          level + 1,
-                                          nodes,
-                                          save_data)
+                nodes[level].append(curr_node)
+            for child in reversed(curr_node.get_children()):
+                stack.append((child, level + 1))
         return nodes
 
     def get_nodes_per_level(self):
-- 
2.43.0


From 5c7acbeb57b48dd3013761ffb431a9440edac9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:38 +0000
Subject: [PATCH 16/34] fix: traversing a deep binary tree doesn't exceed the
 recursion limit

---
 extra/trees/binary_tree.py | 71 ++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/extra/trees/binary_tree.py b/extra/trees/binary_tree.py
index e2cdc1d..79db472 100644
--- a/extra/trees/binary_tree.py
+++ b/extra/trees/binary_tree.py
@@ -824,19 +824,13 @@ class BinaryTree(Tree):
         """
         assert start_node is None or isinstance(start_node, self._basic_node)
 
-        left_node = start_node.get_left()
-        right_node = start_node.get_right()
-
-        if left_node is None and right_node is None:
-            return True
-        elif left_node is not None and right_node is None:
-            return False
-        elif left_node is None and right_node is not None:
-            return False
-        else:
-            return self.__is_subtree_strict(
-                start_node.get_left()
-            ) and self.__is_subtree_strict(start_node.get_right())
+        stack = [start_node]
+        while stack:
+            children = stack.pop().get_children()
+            if len(children) == 1:
+                return False
+            stack.extend(children)
+        return True
 
     def is_strict(self):
         """
@@ -960,12 +954,11 @@ class BinaryTree(Tree):
         assert start_node is None or isinstance(start_node, self._basic_node)
 
         nodes = []
-        if start_node is not None:
-            nodes.append(start_node.get_data())
-            if start_node.get_left():
-                nodes.extend(self.__preorder_traverse(start_node.get_left()))
-            if start_node.get_right():
-                nodes.extend(self.__preorder_traverse(start_node.get_right()))
+        stack = [start_node] if start_node is not None else []
+        while stack:
+            curr_node = stack.pop()
+            nodes.append(curr_node.get_data())
+            stack.extend(reversed(curr_node.get_children()))
         return nodes
 
     def preorder_traverse(self):
@@ -1031,14 +1024,14 @@ class BinaryTree(Tree):
         """"""
         assert start_node is None or isinstance(start_node, self._basic_node)
 
+        # post-order is the reverse of (node, right, left)
         nodes = []
-        if start_node is not None:
-            if start_node.get_left():
-                nodes.extend(self.__postorder_traverse(start_node.get_left()))
-            if start_node.get_right():
-                nodes.extend(self.__postorder_traverse(start_node.get_right()))
-            nodes.append(start_node.get_data())
-        return nodes
+        stack = [start_node] if start_node is not None else []
+        while stack:
+            curr_node = stack.pop()
+            nodes.append(curr_node.get_data())
+            stack.extend(curr_node.get_children())
+        return nodes[::-1]
 
     def postorder_traverse(self):
         """
@@ -1071,12 +1064,16 @@ class BinaryTree(Tree):
         assert start_node is None or isinstance(start_node, self._basic_node)
 
         nodes = []
-        if start_node is not None:
-            if start_node.get_left():
-                nodes.extend(self.__inorder_traverse(start_node.get_left()))
-            nodes.append(start_node.get_data())
-            if start_node.get_right():
-                nodes.extend(self.__inorder_traverse(start_node.get_right()))
+        stack = []
+        curr_node = start_node
+        while stack or curr_node is not None:
+            if curr_node is not None:
+                stack.append(curr_node)
+                curr_node = curr_node.get_left()
+            else:
+                curr_node = stack.pop()
+                nodes.append(curr_node.get_data())
+                curr_node = curr_node.get_right()
         return nodes
 
     def inorder_traverse(self):
@@ -1327,11 +1324,11 @@ class BinaryTree(Tree):
     # =============================    INVERT    ==============================
     def _invert_subtree(self, curr_node):
         """"""
-        if curr_node is not None:
-            curr_node._left, curr_node._right = (
-                self._invert_subtree(curr_node._right), 
-                self._invert_subtree(curr_node._left)
-            )
+        stack = [curr_node] if curr_node is not None else []
+        while stack:
+            node = stack.pop()
+            node._left, node._right = node._right, node._left
+            stack.extend(node.get_children())
         return curr_node
 
     def invert(self):
-- 
2.43.0


From 18bfe811f9953cb21a8eca928e75de3905b8288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 17/34] fix: a deep search tree doesn't exceed the recursion
 limit

---
 extra/trees/bst.py | 51 ++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/extra/trees/bst.py b/extra/trees/bst.py
index fe6c3e8..9de1dec 100644
--- a/extra/trees/bst.py
+++ b/extra/trees/bst.py
@@ -452,10 +452,9 @@ class BST(BinaryTree):
         assert isinstance(start_node, self._basic_node)
 
         # get the right-most node
-        if start_node.get_right() is None:
-            return start_node
-        else:
-            return self._get_max_node(start_node.get_right())
+        while start_node.get_right() is not None:
+            start_node = start_node.get_right()
+        return start_node
 
     def get_max(self):
         """
@@ -521,10 +520,9 @@ class BST(BinaryTree):
         assert isinstance(start_node, self._basic_node)
 
         # get the left-most node
-        if start_node.get_left() is None:
-            return start_node
-        else:
-            return self._get_min_node(start_node.get_left())
+        while start_node.get_left() is not None:
+            start_node = start_node.get_left()
+        return start_node
 
     def get_min(self):
         """
@@ -609,18 +607,16 @@ class BST(BinaryTree):
         assert isinstance(start_node, self._basic_node)
         assert type(find_val) in {float, int}
 
-        if find_val == start_node.get_data():
-            return start_node
-        elif find_val < start_node.get_data():
-            if start_node.get_left():
-                return self._search(find_val, start_node.get_left())
+        curr_node = start_node
+        while curr_node is not None:
+            start_node = curr_node
+            if find_val == start_node.get_data():
+                break
+            elif find_val < start_node.get_data():
+                curr_node = start_node.get_left()
             else:
-                return start_node
-        else:
-            if start_node.get_right():
-                return self._search(find_val, start_node.get_right())
-            else:
-                return start_node
+                curr_node = start_node.get_right()
+        return start_node
 
     def __contains__(self, find_val):
         """
@@ -692,25 +688,18 @@ class BST(BinaryTree):
         )
 
         value = inserted_node.get_data()
+        start_node = self._search(value, start_node)
         if value == start_node.get_data():
             warnings.warn(
                 f"`{value}` already exists in `{self.__name__}`", UserWarning
             )
             return start_node
         elif value < start_node.get_data():
-            if start_node.get_left():
-                return self._insert_node(start_node.get_left(), inserted_node)
-            else:
-                start_node.set_left(inserted_node)
-                self._length += 1
-                return inserted_node
+            start_node.set_left(inserted_node)
         else:
-            if start_node.get_right():
-                return self._insert_node(start_node.get_right(), inserted_node)
-            else:
-                start_node.set_right(inserted_node)
-                self._length += 1
-                return inserted_node
+            start_node.set_right(inserted_node)
+        self._length += 1
+        return inserted_node
 
     def _insert_value(self, start_node, value):
         """
-- 
2.43.0


From a870559207929752b2eac0392fde5dddad25fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 18/34] fix: removing from a search tree keeps the
 replacement's subtree

---
 extra/trees/bst.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/extra/trees/bst.py b/extra/trees/bst.py
index 9de1dec..f0530e8 100644
--- a/extra/trees/bst.py
+++ b/extra/trees/bst.py
@@ -873,22 +873,17 @@ class BST(BinaryTree):
         assert replacement is None or isinstance(replacement, self._basic_node)
 
         # replace 'node' with 'replacement'
-        if replacement is None:
-            parent = node.get_parent()
-            if parent.get_left() == node:
-                parent.set_left(replacement)
-            else:
-                parent.set_right(replacement)
+        if replacement is not None:
+            # move data, then take 'replacement' out instead of 'node'
+            node._data = replacement.get_data()
+            node = replacement
+        # NOTE: here, 'node' has one child at most
+        child = node.get_left() if node.get_left() else node.get_right()
+        parent = node.get_parent()
+        if parent.get_left() == node:
+            parent.set_left(child)
         else:
-            if replacement.is_leaf():
-                new_replacement = None
-            elif replacement.get_left():
-                new_replacement = replacement.get_left()
-            else:
-                new_replacement = replacement.get_right()
-            # swap data
-            self._basic_node.swap(node, replacement)
-            self._transplant(replacement, new_replacement)
+            parent.set_right(child)
 
     def _remove(self, del_value, start_node):
         """
-- 
2.43.0


From 0047b61c9e49a5e101f89c511e52b76726ff8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:55 +0000
Subject: [PATCH 19/34] fix: AVL rebalances with a single rotation when the
 heavy child is even

---
 extra/trees/avl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/extra/trees/avl.py b/extra/trees/avl.py
index cb09a88..57413d9 100644
--- a/extra/trees/avl.py
+++ b/extra/trees/avl.py
@@ -748,10 +748,12 @@ class AVL(BST):
         )
         # get the heavy child
         left_height, right_height = parent.get_children_heights()
-        node = (
-            parent.get_left()
-            if left_height > right_height else parent.get_right()
-        )
+        if left_height == right_height:
+            # possible after removals; a single rotation is what's needed
+            heavy_left = parent.is_left_child()
+        else:
+            heavy_left = left_height > right_height
+        node = parent.get_left() if heavy_left else parent.get_right()
 
         # determine the direction
         if parent.is_left_child():
-- 
2.43.0


From 60f832979432881139840ba032b4b4cdd243e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 20/34] fix: red-black insertion doesn't recolor around black
 nodes

---
 extra/trees/red_black_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index dab6e8f..38d2567 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -513,7 +513,8 @@ class RedBlackTree(BST):
             return parent if parent else start_node
 
         # case I
-        if parent.get_color() == Color.BLACK:
+        if (parent.get_color() == Color.BLACK
+                or start_node.get_color() == Color.BLACK):
             # do nothing
             # print("Case I")
             return self._root
-- 
2.43.0


From 31d5461c39a4c91eb86413767a0b47abbf9bf307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:44 +0000
Subject: [PATCH 21/34] fix: red-black removal keeps every black height

---
 extra/trees/red_black_tree.py | 67 ++++++++++-------------------------
 1 file changed, 19 insertions(+), 48 deletions(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 38d2567..f668f98 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -728,6 +728,7 @@ class RedBlackTree(BST):
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_right_color == Color.BLACK:
@@ -770,10 +771,11 @@ class RedBlackTree(BST):
                     s_right_child.get_color() if s_right_child else Color.BLACK
                 )
                 # Case III
-                if (s_right_color == Color.BLACK
+                if (s_left_color == Color.BLACK
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_left_color == Color.BLACK:
@@ -791,6 +793,9 @@ class RedBlackTree(BST):
                     parent = super()._rotate_right(parent)
                     super()._attach(grandparent, parent)
                     double_black_node = self._root
+        # absorb the extra black
+        if double_black_node is not None:
+            double_black_node.set_color(Color.BLACK)
         # make sure root is always black
         self._root.set_color(Color.BLACK)
 
@@ -869,54 +874,20 @@ class RedBlackTree(BST):
         replacement = self._find_replacement(removed_node)
         # print("replacement:", replacement)
 
-        # Case I (replace red-node with red-node/None)
-        if removed_node.get_color() == Color.RED and (
-            replacement is None or replacement.get_color() == Color.RED
-        ):
-            # print("Case I (replace red-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
-
-        # Case II (replace red-node with black-node)
-        elif (
-            removed_node.get_color() == Color.RED
-            and replacement.get_color() == Color.BLACK
-        ):
-            # print("Case II (replace red-node with black-node)")
-            raise ValueError("Debug this, this case shouldn't occur!!")
-
-        # Case III (replace black-node with black-node)
-        elif removed_node.get_color() == Color.BLACK and (
-            replacement is None or replacement.get_color() == Color.BLACK
-        ):
-            # print("Case III (double black-node)")
-            if replacement:
-                parent = replacement.get_parent()
-            else:
-                parent = removed_node.get_parent()
-            # do the transplant
-            super()._transplant(removed_node, replacement)
-            # get double black node
-            if replacement is None:
-                if parent.get_left() is None:
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
+        # the node leaving its place in the tree
+        leaving_node = removed_node if replacement is None else replacement
+        parent = leaving_node.get_parent()
+        children = leaving_node.get_children()
+        super()._transplant(removed_node, replacement)
+
+        # a leaving red-node (which is a leaf) doesn't change any black height
+        if leaving_node.get_color() == Color.BLACK:
+            if children:
+                # Case I (the only child of a black-node is a red leaf)
+                children[0].set_color(Color.BLACK)
             else:
-                if replacement.get_data() < parent.get_data():
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
-            # handle this double black
-            self.__handle_double_black(parent, double_black_node)
-
-        # Case IV (replace black-node with red-node/None)
-        elif (
-            removed_node.get_color() == Color.BLACK
-            and replacement.get_color() == Color.RED
-        ):
-            replacement.set_color(Color.BLACK)
-            # print("Case IV (replace black-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
+                # Case II (double black-node)
+                self.__handle_double_black(parent, None)
         # decrease the length
         self._length -= 1
 
-- 
2.43.0


From 09a92d62d95001f6cce397cc2f12b8a065b81917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:20 +0000
Subject: [PATCH 22/34] fix: black height of an empty red-black tree

---
 extra/trees/red_black_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index f668f98..7b58cbc 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -942,6 +942,8 @@ class RedBlackTree(BST):
         >>> rbtree.get_black_height()
         2
         """
+        if self.is_empty():
+            return 0
         black_height = 0
         start_node = self._root.get_left()
         while start_node is not None:
-- 
2.43.0


From 029c74aa2fd5e3634d432b75da4da5d2d4ecff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 23/34] fix: searching an empty splay tree finds nothing

---
 extra/trees/splay_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/splay_tree.py b/extra/trees/splay_tree.py
index 87ef649..ea2858c 100644
--- a/extra/trees/splay_tree.py
+++ b/extra/trees/splay_tree.py
@@ -391,6 +391,8 @@ class SplayTree(BST):
         root.
         """
         super()._validate_item(find_val)
+        if self.is_empty():
+            return False
         node = super()._search(find_val, self._root)
         self._splay(node)
         return node.get_data() == find_val
-- 
2.43.0


From 2e008f9a101457745e11ea4304810e55d1f60308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 24/34] fix: splaying a deep node doesn't exceed the recursion
 limit

---
 extra/trees/splay_tree.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/extra/trees/splay_tree.py b/extra/trees/splay_tree.py
index ea2858c..2eeb5a2 100644
--- a/extra/trees/splay_tree.py
+++ b/extra/trees/splay_tree.py
@@ -293,34 +293,27 @@ class SplayTree(BST):
     def __splaying(self, start_node):
         assert isinstance(start_node, self._basic_node)
         child = start_node
-        parent = child.get_parent()
-        if parent is None:
-            return start_node
-        grand_parent = child.get_grand_parent()
-        # get the operation type
-        if grand_parent is None:
-            if child.is_left_child():
-                root = self.__zig(child)
-            else:
-                root = self.__zag(child)
-        else:
+        while child.get_parent() is not None:
+            parent = child.get_parent()
+            # get the operation type
+            if parent.get_parent() is None:
+                if child.is_left_child():
+                    child = self.__zig(child)
+                else:
+                    child = self.__zag(child)
             # left -> left
-            if parent.is_left_child() and child.is_left_child():
-                grand_parent = self.__zig_zig(child)
+            elif parent.is_left_child() and child.is_left_child():
+                child = self.__zig_zig(child)
             # left -> right
             elif parent.is_left_child() and not child.is_left_child():
-                grand_parent = self.__zig_zag(child)
+                child = self.__zig_zag(child)
             # right -> left
             elif not parent.is_left_child() and child.is_left_child():
-                grand_parent = self.__zag_zig(child)
+                child = self.__zag_zig(child)
             # right -> right
             else:
-                grand_parent = self.__zag_zag(child)
-            if grand_parent.get_parent() is not None:
-                root = self.__splaying(grand_parent)
-            else:
-                root = grand_parent
-        return root
+                child = self.__zag_zag(child)
+        return child
 
     def _splay(self, start_node):
         """
-- 
2.43.0


From dc32c409c31c8d79c4ecd6ec0badd6ef2034b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 25/34] fix: removing from a treap with negative priorities

---
 extra/trees/treap.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/extra/trees/treap.py b/extra/trees/treap.py
index 6c1fff2..a14173d 100644
--- a/extra/trees/treap.py
+++ b/extra/trees/treap.py
@@ -556,17 +556,14 @@ class Treap(BST):
             # rotate till removed_node is leaf
             parent = removed_node.get_parent()
             while not removed_node.is_leaf():
-                # get children's priority
+                # get children
                 left_child = removed_node.get_left()
                 right_child = removed_node.get_right()
-                left_priority = left_child.get_priority() if left_child else -1
-                right_priority = (
-                    right_child.get_priority()
-                    if right_child
-                    else -1
-                )
                 # perform rotation
-                if left_priority > right_priority:
+                if right_child is None or (
+                    left_child is not None
+                    and left_child.get_priority() > right_child.get_priority()
+                ):
                     removed_node = super()._rotate_right(removed_node)
                     super()._attach(parent, removed_node)
                     parent = removed_node
-- 
2.43.0


From e6ccc57d8b272936f1858715f325b2824f2ab555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:27 +0000
Subject: [PATCH 26/34] fix: heap removal keeps the moved value in order with
 its parent

---
 extra/trees/_heap.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index f1b122d..0e47172 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -229,7 +229,19 @@ class Heap(ABC, Extra):
         # add the new value
         self._heap.append(value)
         # swap between parents when needed
-        idx = len(self._heap) - 1
+        self.__sift_up(len(self._heap) - 1, is_min_heap)
+
+    def __sift_up(self, idx, is_min_heap):
+        """
+        Moves the value at the given index up till it's in order with its parent.
+
+        Parameters
+        ----------
+        idx: int
+            The index of the value to be moved.
+        is_min_heap: bool
+            A flag to tell if the current heap is `MinHeap` or `MaxHeap`.
+        """
         while idx != 0:
             parent_idx = (idx - 1) // 2
             current = self._heap[idx]
@@ -352,6 +364,9 @@ class Heap(ABC, Extra):
         self.__rebalance(del_idx, is_min_heap)
         # remove the (+/-)inf
         self._heap.pop()
+        # the moved item could also be out of order with its new parent
+        if del_idx < last_idx:
+            self.__sift_up(del_idx, is_min_heap)
 
     # =============================     ITER     ==============================
     def __iter__(self):
-- 
2.43.0


From 5443af7284a70fe03971c42c49fddd3784dbf382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 27/34] fix: iterating over an empty heap yields nothing

---
 extra/trees/_heap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index 0e47172..fe063ae 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -379,6 +379,8 @@ class Heap(ABC, Extra):
         generator:
             The value of each node in the instance.
         """
+        if self.is_empty():
+            return
         btree = self._transform()
         for node in btree:
             yield node
-- 
2.43.0


From 625edae73cfebc2a452633a602f60eff44128b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 28/34] fix: converting a heap to a list returns a new list

---
 extra/trees/_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index fe063ae..3fe70c1 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -395,7 +395,7 @@ class Heap(ABC, Extra):
         list:
             A `list` object containing the same elements as the heap instance.
         """
-        return self._heap
+        return self._heap[:]
 
     # =============================    CLEAR     ==============================
     def clear(self):
-- 
2.43.0


From d391fa056dabe0720f9d38f9b2b7f7e62272c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 29/34] fix: removing the last word of a trie

---
 extra/trees/trie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 66400c5..3e281c2 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -719,7 +719,11 @@ class Trie(Tree):
         if remaining_word == "":  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
-            while not curr_node._is_word and curr_node.is_leaf():
+            while (
+                curr_node is not self._root
+                and not curr_node._is_word
+                and curr_node.is_leaf()
+            ):
                 ch = curr_node.get_data()[0]
                 parent = curr_node.get_parent()
                 del parent._children[ch]
-- 
2.43.0


From b0776332215bf8354b2b499fbe9181a16e1b7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 30/34] fix: a trie can hold words with curly brackets

---
 extra/trees/trie.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 3e281c2..19cf811 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -530,8 +530,9 @@ class Trie(Tree):
         while word:
             ch = word[0]
             child = curr_node.get_child(ch)
-            child_data = child.get_data() if child else "}"
-            # '}' is used to break the following if-condition
+            if child is None:
+                break
+            child_data = child.get_data()
             if child_data == word[: len(child_data)]:
                 word = word[len(child_data):]
                 curr_node = child
-- 
2.43.0


From ca6a648670360d39ab95270659ac78513712e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:39 +0000
Subject: [PATCH 31/34] fix: completing long words doesn't exceed the recursion
 limit

---
 extra/trees/trie.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 19cf811..4621865 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -766,12 +766,15 @@ class Trie(Tree):
         assert type(prev_prefixes) == list
 
         output = []
-        prefixes = prev_prefixes + [start_node.get_data()]
-        if start_node._is_word:
-            output.append("".join(prefixes))
-        # iterate over children
-        for child in start_node.get_children():
-            output.extend(self._get_candidates(child, prefixes))
+        stack = [(start_node, "".join(prev_prefixes))]
+        while stack:
+            node, prefix = stack.pop()
+            prefix += node.get_data()
+            if node._is_word:
+                output.append(prefix)
+            # iterate over children, the first one comes first
+            for child in reversed(node.get_children()):
+                stack.append((child, prefix))
         return output
 
     def auto_complete(self, prefix=""):
-- 
2.43.0


From c7a323c2e13052b9898979d634fc63d305a6d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 32/34] fix: longest repeated substring of a suffix trie could
 be at any level

---
 extra/trees/suffix_trie.py | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index cb0f21d..cdd9816 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -422,28 +422,6 @@ class SuffixTrie(Extra):
         return [k for k, v in sorted(self._suffix_array, key=lambda x: x[1])]
 
     # =============================    LCS/LRS   ==============================
-    def __get_deepest_nodes(self):
-        """
-        Returns a list of the trie nodes found in the deepest one or two levels
-        of the `SuffixTrie()` instance. It returns a list of the deepest two
-        level only if the height of the SuffixTrie exceeds 2. Other than that,
-        it returns a list of the deepest level.
-
-        Returns
-        -------
-        list:
-            A list of the deepest `TrieNode()` objects found in the
-            `SuffixTrie()` instanece.
-        """
-        if self._rt.is_empty():
-            return self._rt._root
-        level_nodes = (
-            self._rt._get_nodes_per_level(self._rt._root, 0, [], False)
-        )
-        if len(level_nodes) > 2:
-            return level_nodes[-1] + level_nodes[-2]
-        return level_nodes[-1]
-
     def _get_ancestors_data(self, node):
         """
         Gets all the data in the ancestors (parent, then grand-parent, then
@@ -532,7 +510,8 @@ class SuffixTrie(Extra):
             return []
         lcs_set = set()
         longest_length = 0
-        for node in self.__get_deepest_nodes():
+        # the longest one could be the parent of any leaf node
+        for node in self._leaf_nodes.values():
             lcs = self._get_ancestors_data(node)
             longest_length = max(longest_length, len(lcs))
             lcs_set.add(lcs)
-- 
2.43.0


From 3a93887519ec1ecf405b32427597c0405f7458f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:12 +0000
Subject: [PATCH 33/34] fix: a BST node without a parent is not a left child

---
 extra/trees/bst.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extra/trees/bst.py b/extra/trees/bst.py
index f0530e8..d44fa80 100644
--- a/extra/trees/bst.py
+++ b/extra/trees/bst.py
@@ -263,7 +263,10 @@ class BSTNode(BinaryTreeNode):
             `True` if the current `BSTNode()` is a left-child. And `False` if
             it's not.
         """
-        return self._parent.get_data() > self.get_data()
+        return (
+            self._parent is not None
+            and self._parent.get_data() > self.get_data()
+        )
 
     def __repr__(self):
         """
-- 
2.43.0


From 10955d157466647bc1c94dc3003e43532c270d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:16 +0000
Subject: [PATCH 34/34] fix: swapping a red-black node with another node left
 the data half swapped

---
 extra/trees/red_black_tree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 7b58cbc..e7130ce 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -199,6 +199,13 @@ class RedBlackNode(BSTNode):
         TypeError: Incompitable objects' type preventing swapping!!
         """
         # node1._data, node2._data = node2._data, node1._data
+        if not (
+            isinstance(node1, RedBlackNode)
+            and isinstance(node2, RedBlackNode)
+        ):
+            raise TypeError(
+                "Incompitable objects' type preventing swapping!!"
+            )
         super().swap(node1, node2)
         node1._color, node2._color = node2._color, node1._color
 
-- 
2.43.0

