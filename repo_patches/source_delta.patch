From 4015ad31068bc1975527ecf7e1e0341b427ef682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 01/55] fix: NS add_child left the parent object's rgt two too
 high when it already had children

---
 treebeard/ns_tree.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 7a8a8dd..ffea801 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -155,7 +155,6 @@ class NS_NodeManager(NodeManager):
             last_child = self.get_last_child(node)
             last_child._cached_parent_obj = node
             new_sibling = self.add_sibling(last_child, pos, create_kwargs=create_kwargs, instance=instance)
-            node.rgt += 2
             target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop
             return new_sibling
 
-- 
2.43.0


From 1d0b004c59e7cc791e1e2671a4c631613d86a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 02/55] fix: NS add_sibling/move took the insertion point from
 a stale cached parent object

---
 treebeard/ns_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index ffea801..9ca0246 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -239,7 +239,7 @@ class NS_NodeManager(NodeManager):
                     target = siblings.first()
 
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, True).rgt
                 self._alter_gap(target.tree_id, newpos, 2)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
@@ -338,7 +338,7 @@ class NS_NodeManager(NodeManager):
                 self._move_tree_right(target.tree_id)
         else:
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, True).rgt
                 self._alter_gap(target.tree_id, newpos, gap)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
-- 
2.43.0


From 3b36bb0b772b1b52d790817fa8acdd68933a6a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 03/55] fix: compare nodes by primary key, so that a
 multi-table child and its parent row are the same node

---
 treebeard/al_tree.py        |  2 +-
 treebeard/ltree/__init__.py |  2 +-
 treebeard/mp_tree.py        |  4 ++--
 treebeard/ns_tree.py        | 14 +++++++-------
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 4c786cf..2f73d5d 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -118,7 +118,7 @@ class AL_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if node.pk == target.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index fd90305..7aed681 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -272,7 +272,7 @@ class LT_NodeManager(NodeManager):
         pos = self._prepare_pos_var_for_move(pos)
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if target.pk == node.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
         if target.is_descendant_of(node):
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0401923..63d297c 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -552,7 +552,7 @@ class MP_NodeManager(NodeManager):
         newpos = None
         siblings = []
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if target.pk == node.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -764,7 +764,7 @@ class MP_NodeManager(NodeManager):
 
         :returns: A tuple containing the old path and the new path.
         """
-        if (pos == "last-sibling") or (pos == "right" and target == self.get_last_sibling(target)):
+        if (pos == "last-sibling") or (pos == "right" and target.pk == self.get_last_sibling(target).pk):
             # easy, the last node
             last = self.get_last_sibling(target)
             newpath = last._inc_path()
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 9ca0246..5175565 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -221,7 +221,7 @@ class NS_NodeManager(NodeManager):
                 siblings = self.get_siblings(target)
 
                 if pos == "right":
-                    if target == siblings.last():
+                    if target.pk == siblings.last().pk:
                         pos = "last-sibling"
                     else:
                         pos = "left"
@@ -230,10 +230,10 @@ class NS_NodeManager(NodeManager):
                             if found:
                                 target = node
                                 break
-                            elif node == target:
+                            elif node.pk == target.pk:
                                 found = True
                 if pos == "left":
-                    if target == siblings.first():
+                    if target.pk == siblings.first().pk:
                         pos = "first-sibling"
                 if pos == "first-sibling":
                     target = siblings.first()
@@ -267,7 +267,7 @@ class NS_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if node.pk == target.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -302,7 +302,7 @@ class NS_NodeManager(NodeManager):
             siblings = self.get_siblings(target)
 
             if pos == "right":
-                if target == siblings.last():
+                if target.pk == siblings.last().pk:
                     pos = "last-sibling"
                 else:
                     pos = "left"
@@ -311,10 +311,10 @@ class NS_NodeManager(NodeManager):
                         if found:
                             target = sib
                             break
-                        elif sib == target:
+                        elif sib.pk == target.pk:
                             found = True
             if pos == "left":
-                if target == siblings.first():
+                if target.pk == siblings.first().pk:
                     pos = "first-sibling"
             if pos == "first-sibling":
                 target = siblings.first()
-- 
2.43.0


From f9241f37b25bc1e48ec6bc118026c80e2d63538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 04/55] fix: MP add_sibling left the target object with its old
 path when the target was shifted

---
 treebeard/mp_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 63d297c..69991ca 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -824,11 +824,11 @@ class MP_NodeManager(NodeManager):
                     # if moving to a parent, update oldpath since we just
                     # increased the path of the entire branch
                     oldpath = _inc_path + oldpath[len(_inc_path) :]
-                if target.path.startswith(node.path):
-                    # and if we moved the target, update the object
-                    # django made for us, since the update won't do it
-                    # maybe useful in loops
-                    target.path = _inc_path + target.path[len(_inc_path) :]
+            if target.path.startswith(node.path):
+                # and if we moved the target, update the object
+                # django made for us, since the update won't do it
+                # maybe useful in loops
+                target.path = _inc_path + target.path[len(_inc_path) :]
         if movebranch:
             # node to move
             self._set_newpath_in_branches(tempnewpath or oldpath, newpath)
-- 
2.43.0


From 38d6d849d0be9d29e8e4d0f42b07c5fc93b28b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 05/55] fix: MP move to a child position left the target object
 out of date

---
 treebeard/mp_tree.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 69991ca..aeda332 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -487,6 +487,7 @@ class MP_NodeManager(NodeManager):
            node's new position
         """
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         # initialize variables and if moving to a child, updates "move to
         # child" to become a "move to sibling" if possible (if it can't
@@ -531,7 +532,7 @@ class MP_NodeManager(NodeManager):
 
         self.update_parent_counts_after_move(oldpath, newpath)
         node.refresh_from_db()  # Node path and depth will have changed
-        target.refresh_from_db()
+        original_target.refresh_from_db()
 
     def update_parent_counts_after_move(self, oldpath, newpath):
         """
@@ -556,7 +557,6 @@ class MP_NodeManager(NodeManager):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
-            parent = target
             newdepth += 1
             if target.is_leaf():
                 # moving as a target's first child
@@ -571,11 +571,6 @@ class MP_NodeManager(NodeManager):
                     "sorted-child": "sorted-sibling",
                 }[pos]
 
-            # this is not for save(), since if needed, will be handled with a
-            # custom UPDATE, this is only here to update django's object,
-            # should be useful in loops
-            parent.numchild += 1
-
         return target, newdepth, siblings, newpos, pos
 
     def get_root_nodes(self):
-- 
2.43.0


From c52fe8a70baa7e8ce9c0e6616cfa7f36b7d96975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 06/55] fix: NS add_sibling left the target object with its old
 position

---
 treebeard/ns_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 5175565..468d6c9 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -183,6 +183,7 @@ class NS_NodeManager(NodeManager):
         """Adds a new node as a sibling to the target."""
 
         pos = self._prepare_pos_var_for_add_sibling(pos)
+        original_target = target
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = target.depth
@@ -250,6 +251,7 @@ class NS_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj.save(using=self._db)
+        original_target.refresh_from_db(fields=["tree_id", "lft", "rgt"])  # Tree params may have changed
 
         return newobj
 
-- 
2.43.0


From a224374b5c1d341fcf6d7e5db23cc86861bfa09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 07/55] fix: AL add_sibling/move left the target's sib_order
 and the moved node's depth out of date

---
 treebeard/al_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 2f73d5d..d64e4a8 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -151,6 +151,7 @@ class AL_NodeManager(NodeManager):
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
         node.save(using=self._db)
+        node._clear_cached_attributes()
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
@@ -278,6 +279,7 @@ class AL_NodeManager(NodeManager):
             self.tree_model.objects.filter(sib_order__gte=min, parent_id=target_node.parent_id).update(
                 sib_order=models.F("sib_order") + 1
             )
+            target_node.refresh_from_db(fields=["sib_order"])
         return sib_order
 
     def _get_new_sibling_order(self, pos, target_node):
-- 
2.43.0


From d415d14e984beb4299424fb1bc831a6fee8f266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 08/55] fix: LT add_root did not add the new root after the
 last one

---
 treebeard/ltree/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 7aed681..0790034 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -179,7 +179,9 @@ class LT_NodeManager(NodeManager):
 
         if last_root:
             # adding the new root node as the last one
-            newobj.path = generate_path(skip=self.get_root_nodes().values_list("path", flat=True))
+            newobj.path = generate_path(
+                skip=self.get_root_nodes().values_list("path", flat=True), after=last_root.path[-1]
+            )
         else:
             # adding the first root node
             newobj.path = generate_path()
-- 
2.43.0


From e3bb0f0b668e52c9dbae31340d1160f54bc3d5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 09/55] fix: LT sorted insertion and move ignored the existing
 siblings when none sorts after the node

---
 treebeard/ltree/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 0790034..95b08ba 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -250,6 +250,8 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), newobj).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "first-sibling":
             insert_before = self.get_first_sibling(target)
         elif pos == "left":
@@ -288,10 +290,14 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "sorted-child":
             insert_before = self.get_sorted_pos_queryset(self.get_children(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_child(target)
             prefix = target.path
         elif pos == "first-sibling":
             insert_before = self.get_siblings(target).first()
-- 
2.43.0


From c029fab665ca30b9fc6cb8f8ec8de76b9bf687df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 10/55] fix: LT making room for a node reordered siblings whose
 labels extend one another with a digit

---
 treebeard/ltree/__init__.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 95b08ba..396728e 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -321,24 +321,17 @@ class LT_NodeManager(NodeManager):
             node.refresh_from_db()
 
         # Update the path for all the descendants of the node
-        result_class = self.tree_model
         old_path = node.path
-        queryset = result_class.objects.filter(path__descendants=old_path, path__depth__gt=len(old_path))
-        queryset.update(
-            path=Concat(
-                Value(new_path, output_field=PathField()),
-                Subpath(F("path"), len(old_path)),
-            )
-        )
+        using = self._update_descendant_paths(old_path, new_path)
         # And update the path for the node itself
         node.path = new_path
         node.save()
 
         subtree_moved.send(
-            sender=result_class,
+            sender=self.tree_model,
             old_path=old_path,
             new_path=new_path,
-            using=queryset.db,
+            using=using,
         )
 
     def get_root_nodes(self):
@@ -447,6 +440,19 @@ class LT_NodeManager(NodeManager):
         result_class = self.tree_model
         node_depth = len(start_node.path)
 
+        siblings = self.get_siblings(start_node).filter(path__gte=start_node.path)
+        labels = [path[-1] for path in siblings.values_list("path", flat=True)]
+        if any(after.startswith(before) and after[len(before)] < "A" for before, after in itertools.pairwise(labels)):
+            # Appending an A would change the order of these siblings ("B" < "B0", but "BA" > "B0A").
+            # Appending a 0 preserves it, as long as the siblings are moved one by one, from the right.
+            for label in reversed(labels):
+                old_path = PathValue([*start_node.path[:-1], label])
+                new_path = PathValue([*start_node.path[:-1], f"{label}0"])
+                using = self._update_descendant_paths(old_path, new_path)
+                result_class.objects.filter(path=old_path).update(path=new_path)
+                subtree_moved.send(sender=result_class, old_path=old_path, new_path=new_path, using=using)
+            return
+
         if node_depth > 1:
             result_class.objects.filter(
                 path__descendants=start_node.path[:-1], path__gte=start_node.path, path__depth=node_depth
@@ -482,6 +488,16 @@ class LT_NodeManager(NodeManager):
             using=queryset.db,
         )
 
+    def _update_descendant_paths(self, old_path, new_path):
+        queryset = self.tree_model.objects.filter(path__descendants=old_path, path__depth__gt=len(old_path))
+        queryset.update(
+            path=Concat(
+                Value(new_path, output_field=PathField()),
+                Subpath(F("path"), len(old_path)),
+            )
+        )
+        return queryset.db
+
     def get_children(self, node):
         """:returns: A queryset of all the node's children"""
         return self.tree_model.objects.filter(path__descendants=node.path, path__depth=len(node.path) + 1)
-- 
2.43.0


From 341f6700a36642cbbe90ad9ec975f2ccf4ccab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 11/55] fix: LT add_sibling/move left the target object with
 its old path

---
 treebeard/ltree/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 396728e..2ea8957 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -263,8 +263,10 @@ class LT_NodeManager(NodeManager):
         elif pos == "last-sibling":
             insert_after = self.get_last_sibling(target)
 
-        newobj.path, _ = self._get_new_path(target.path[:-1], insert_before, insert_after)
+        newobj.path, nodes_moved = self._get_new_path(target.path[:-1], insert_before, insert_after)
         newobj.save(using=self._db)
+        if nodes_moved:
+            target.refresh_from_db(fields=["path"])
         return newobj
 
     @transaction.atomic
@@ -333,6 +335,7 @@ class LT_NodeManager(NodeManager):
             new_path=new_path,
             using=using,
         )
+        target.refresh_from_db()
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
-- 
2.43.0


From 3d63e0c1510e0d38c74953a69ea24823142a471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 12/55] fix: MP sorted add_child counted the new child on the
 parent object even when it could not be added

---
 treebeard/mp_tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index aeda332..def8ac4 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -401,8 +401,9 @@ class MP_NodeManager(NodeManager):
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-            target.numchild += 1
-            return self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            newobj = self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            target.numchild = node.numchild + 1
+            return newobj
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = node.depth + 1
-- 
2.43.0


From 7ea17511359ce1a8a105fd5f9c685c03cc2241f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 13/55] fix: MP moving a node to the left among its siblings
 overflowed steplen when the last one was near the end

---
 treebeard/mp_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index def8ac4..c41986f 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -791,6 +791,9 @@ class MP_NodeManager(NodeManager):
                 last = self.get_last_sibling(target)
                 basenum = last._get_lastpos_in_path()
                 tempnewpath = self.model._get_path(newpath, newdepth, basenum + 2)
+                if len(tempnewpath) > len(newpath):
+                    # There is no such position: use the one before the first, which is never assigned to a node
+                    tempnewpath = self.model._get_path(newpath, newdepth, 0)
                 self._set_newpath_in_branches(oldpath, tempnewpath)
 
         # Optimisation to only move siblings which need moving
-- 
2.43.0


From 7e826df8374d910537b3366861141805f25600c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 14/55] fix: MP move stored paths longer than path.max_length
 instead of raising PathOverflow

---
 treebeard/mp_tree.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index c41986f..8f8bf6c 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -7,7 +7,7 @@ from typing import Any
 
 from django.core import serializers
 from django.db import connections, models, router, transaction
-from django.db.models import F, Func, OuterRef, Q, Subquery, Value
+from django.db.models import F, Func, Max, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat, Greatest, Length, Substr
 from django.dispatch import Signal
 from django.utils.translation import gettext_noop as _
@@ -526,6 +526,18 @@ class MP_NodeManager(NodeManager):
         ):
             return
 
+        if newdepth > node.depth:
+            deepest = self.get_tree(node).aggregate(deepest=Max("depth"))["deepest"]
+            max_length = self.model._meta.get_field("path").max_length
+            if (deepest + newdepth - node.depth) * self.model.steplen > max_length:
+                raise PathOverflow(
+                    _(
+                        "The moved nodes would be too deep in the tree, try"
+                        " increasing the path.max_length property"
+                        " and UPDATE your database"
+                    )
+                )
+
         # Move nodes
         oldpath, newpath = self._reorder_nodes_before_add_or_move(
             pos, newpos, newdepth, target, siblings, node.path, True
-- 
2.43.0


From 31bcc23ad304874c74b7a205f09c92fed10f4067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 15/55] fix: MP sorted add_sibling/move collided with siblings
 that are out of order

---
 treebeard/mp_tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 8f8bf6c..bff985f 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -462,6 +462,9 @@ class MP_NodeManager(NodeManager):
             newpos = first._get_lastpos_in_path() if first else None
             if newpos is None:
                 pos = "last-sibling"
+            else:
+                # All the siblings from there on have to make room, even those which are out of order
+                siblings = self.get_siblings(target).filter(path__gte=first.path)
         else:
             newpos, siblings = None, []
 
@@ -508,6 +511,8 @@ class MP_NodeManager(NodeManager):
                     # The node is already in the right place (same parent,
                     # right before the computed sibling), nothing to do
                     return
+                # All the siblings from there on have to make room, even those which are out of order
+                siblings = self.get_siblings(target).filter(path__gte=first.path).exclude(pk=node.pk)
             else:
                 newpos = None
                 pos = "last-sibling"
-- 
2.43.0


From 4e83fa1465f7b7a3a695535ee1999fa77d7be373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 16/55] fix: MP load_bulk(bulk_create=True) stored overflowing
 paths instead of raising PathOverflow

---
 treebeard/mp_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index bff985f..a8c4787 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -686,6 +686,7 @@ class MP_NodeManager(NodeManager):
         added = []
         bulk_data = prepare_dumpdata_for_loading(self.model, data=bulk_data, keep_ids=keep_ids)
         children_to_create = []
+        max_length = self.model._meta.get_field("path").max_length
 
         def _build_children(parent_node, children) -> None:
             child_depth = parent_node.depth + 1
@@ -694,6 +695,8 @@ class MP_NodeManager(NodeManager):
                 child.object.depth = child_depth
                 child.object.numchild = len(child.children)
                 child.object.path = self.model._get_path(parent_node.path, child_depth, i + 1)
+                if len(child.object.path) > min(child_depth * self.model.steplen, max_length):
+                    raise PathOverflow(_(f"Path Overflow from: '{parent_node.path}'"))
 
                 children_to_create.append(child)
 
-- 
2.43.0


From 974d9e666b4e2240c06d6f9291587b452f2d4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 17/55] fix: MP load_bulk(bulk_create=True) attached children
 to the wrong node on sorted models

---
 treebeard/mp_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index a8c4787..25dbcb6 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -713,7 +713,12 @@ class MP_NodeManager(NodeManager):
             )
             save_m2m(node_obj, deserialized_obj)
             added.append(node_obj.pk)
-            _build_children(node_obj, deserialized_obj.children)
+
+        for deserialized_obj in bulk_data:
+            if self.model.node_order_by:
+                # Its path has changed if a node was inserted before it
+                deserialized_obj.object.refresh_from_db(fields=["path"])
+            _build_children(deserialized_obj.object, deserialized_obj.children)
 
         # Bulk create descendants
         created = self.bulk_create([obj.object for obj in children_to_create], batch_size=batch_size)
-- 
2.43.0


From 6c248fa5dfaf1c954bcd14cb2e821d78222ddcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 18/55] fix: AL get_prev_sibling/get_next_sibling crashed on
 sorted models, which have no sib_order

---
 treebeard/al_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index d64e4a8..750dc46 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -225,9 +225,13 @@ class AL_NodeManager(NodeManager):
         return len(self.get_descendants(node, max_depth=max_depth))
 
     def get_prev_sibling(self, node):
+        if self.model.node_order_by:
+            return super().get_prev_sibling(node)
         return self.get_siblings(node).filter(sib_order__lt=node.sib_order).last()
 
     def get_next_sibling(self, node):
+        if self.model.node_order_by:
+            return super().get_next_sibling(node)
         return self.get_siblings(node).filter(sib_order__gt=node.sib_order).first()
 
     def get_root(self, node):
-- 
2.43.0


From 34eff35a258411f083405d02f5572c03d2b41935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 19/55] fix: NS/LT/AL took max_depth=0 for no limit, and NS
 get_descendant_count returned a float

---
 treebeard/al_tree.py        | 4 ++--
 treebeard/ltree/__init__.py | 2 +-
 treebeard/ns_tree.py        | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 750dc46..506885d 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -35,7 +35,7 @@ class AL_NodeManager(NodeManager):
             depth = parent.get_depth() + 1
             parent.node_has_children = self.get_children(parent).exists()
             results = [parent]
-            if max_depth:
+            if max_depth is not None:
                 max_depth += parent.get_depth()
         else:
             depth = 1
@@ -45,7 +45,7 @@ class AL_NodeManager(NodeManager):
         return results
 
     def _get_tree_recursively(self, results, parent, depth, max_depth):
-        if max_depth and depth > max_depth:
+        if max_depth is not None and depth > max_depth:
             return results
 
         if parent:
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 2ea8957..cfff0c4 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -154,7 +154,7 @@ class LT_NodeManager(NodeManager):
         if parent:
             filters["path__descendants"] = parent.path
 
-        if max_depth:
+        if max_depth is not None:
             filters["path__depth__lte"] = max_depth + (parent.get_depth() if parent else 0)
 
         return cls.objects.filter(**filters)
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 468d6c9..cd492ae 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -104,7 +104,7 @@ class NS_NodeManager(NodeManager):
             filters["tree_id"] = parent.tree_id
             filters["lft__range"] = (parent.lft, parent.rgt - 1)
 
-        if max_depth:
+        if max_depth is not None:
             filters["depth__lte"] = max_depth + (parent.depth if parent else 0)
 
         return cls.objects.filter(**filters)
@@ -511,8 +511,8 @@ class NS_NodeManager(NodeManager):
         If max_depth is set then the count is limited to the specified depth relative
         to the node.
         """
-        if not max_depth:
-            return (node.rgt - node.lft - 1) / 2
+        if max_depth is None:
+            return (node.rgt - node.lft - 1) // 2
 
         return self.get_descendants(node, max_depth=max_depth).count()
 
-- 
2.43.0


From 2cebd195064896b37e409f4da3ebfb914c2b20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 20/55] fix: get_annotated_list(max_depth=...) crashed on AL
 and LT trees

---
 treebeard/al_tree.py        | 3 +++
 treebeard/ltree/__init__.py | 3 +++
 treebeard/models.py         | 5 ++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 506885d..685225c 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -267,6 +267,9 @@ class AL_NodeManager(NodeManager):
             node = self.get_parent(node)
         return ancestors
 
+    def _limit_depth(self, qs, max_depth):
+        return [node for node in qs if node.get_depth() <= max_depth]
+
     def _is_target_pos_the_last_sibling(self, pos, target):
         return pos == "last-sibling" or (pos == "right" and target == self.get_last_sibling(target))
 
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index cfff0c4..c3afd0a 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -491,6 +491,9 @@ class LT_NodeManager(NodeManager):
             using=queryset.db,
         )
 
+    def _limit_depth(self, qs, max_depth):
+        return qs.filter(path__depth__lte=max_depth)
+
     def _update_descendant_paths(self, old_path, new_path):
         queryset = self.tree_model.objects.filter(path__descendants=old_path, path__depth__gt=len(old_path))
         queryset.update(
diff --git a/treebeard/models.py b/treebeard/models.py
index e3059a6..671c440 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -432,9 +432,12 @@ class NodeManager(models.Manager):
         """
         qs = self.get_tree(parent)
         if max_depth:
-            qs = qs.filter(depth__lte=max_depth)
+            qs = self._limit_depth(qs, max_depth)
         return self.get_annotated_list_qs(qs)
 
+    def _limit_depth(self, qs, max_depth):
+        return qs.filter(depth__lte=max_depth)
+
     @transaction.atomic
     def load_bulk(self, bulk_data, parent=None, keep_ids=False):
         """
-- 
2.43.0


From b228928a3ce2ac06a1e4ff19a0ae9bdd427b74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 21/55] fix: MoveNodeForm on AL trees accepted the node itself
 or a descendant as the reference node

---
 treebeard/forms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 723b752..e978478 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -114,7 +114,9 @@ class MoveNodeForm(forms.ModelForm):
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.all()
+            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(
+                pk__in=[node.pk for node in descendants]
+            )
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From 5108bcf452a2d7b37f2bf84fbc2a6ecada15901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 22/55] fix: AL add_child did not lock the parent row, so
 concurrent calls stored the same sib_order

---
 treebeard/al_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 685225c..86a7813 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -77,6 +77,8 @@ class AL_NodeManager(NodeManager):
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the node."""
+        # Lock the parent row
+        self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
         newobj = instance or self.model(**create_kwargs)
 
         try:
-- 
2.43.0


From 4374493b8eb100abfcd31a5180e73d1c788efcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 23/55] fix: tree operations ran in a transaction of the
 default database instead of the one they write to

---
 treebeard/al_tree.py        | 12 ++++++------
 treebeard/ltree/__init__.py | 12 ++++++------
 treebeard/models.py         |  6 +++---
 treebeard/mp_tree.py        | 14 +++++++-------
 treebeard/ns_tree.py        | 12 ++++++------
 treebeard/utils.py          | 16 +++++++++++++++-
 6 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 86a7813..ff121f1 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -1,13 +1,13 @@
 """Adjacency List"""
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Exists, Max, Min, OuterRef
 from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic, check_create_args
 
 
 class AL_NodeManager(NodeManager):
@@ -61,7 +61,7 @@ class AL_NodeManager(NodeManager):
             results.append(node)
             self._get_tree_recursively(results, node, depth + 1, max_depth=max_depth)
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
@@ -73,7 +73,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the node."""
@@ -94,7 +94,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, instance=None):
         """Adds a new node as a sibling to the current node object."""
@@ -107,7 +107,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index c3afd0a..59db4e3 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -7,7 +7,7 @@ import string
 from collections.abc import Iterable
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import F, Func, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat
 from django.dispatch import Signal
@@ -15,7 +15,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic, check_create_args
 
 from .fields import Ltree2Text, PathField, PathValue, Subpath, Text2LTree
 
@@ -159,7 +159,7 @@ class LT_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """
@@ -190,7 +190,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """
@@ -228,7 +228,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """
@@ -269,7 +269,7 @@ class LT_NodeManager(NodeManager):
             target.refresh_from_db(fields=["path"])
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/models.py b/treebeard/models.py
index 671c440..e63cd36 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -6,13 +6,13 @@ from contextlib import suppress
 from functools import reduce
 
 from django.core import checks
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Q
 from django.utils.functional import cached_property
 
 from treebeard.deprecation import RemovedInTreebeard8Warning, get_moved_manager_classmethod, get_moved_manager_method
 from treebeard.exceptions import InvalidPosition, MissingNodeOrderBy
-from treebeard.utils import prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import atomic, prepare_dumpdata_for_loading, save_m2m
 
 
 class Node(models.Model):
@@ -438,7 +438,7 @@ class NodeManager(models.Manager):
     def _limit_depth(self, qs, max_depth):
         return qs.filter(depth__lte=max_depth)
 
-    @transaction.atomic
+    @atomic
     def load_bulk(self, bulk_data, parent=None, keep_ids=False):
         """
         Loads a list/dictionary structure to the tree.
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 25dbcb6..6a3b7f5 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -16,7 +16,7 @@ from treebeard.deprecation import RemovedInTreebeard8Warning
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
 from treebeard.numconv import NumConv
-from treebeard.utils import check_create_args, prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import atomic, check_create_args, prepare_dumpdata_for_loading, save_m2m
 
 path_updated = Signal()
 nodes_deleted = Signal()
@@ -164,7 +164,7 @@ class MP_NodeManager(NodeManager):
         self._fix_numchild(qs)
 
         if fix_paths:
-            with transaction.atomic():
+            with transaction.atomic(using=router.db_for_write(cls)):
                 # To fix holes and mis-orderings in paths, we consider each non-leaf node in turn
                 # and ensure that its children's path values are consecutive (and in the order
                 # given by node_order_by, if applicable). children_to_fix is a queue of child sets
@@ -336,7 +336,7 @@ class MP_NodeManager(NodeManager):
 
         return evil_chars, bad_steplen, orphans, wrong_depth, wrong_numchild
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """
@@ -380,7 +380,7 @@ class MP_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """
@@ -434,7 +434,7 @@ class MP_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """
@@ -481,7 +481,7 @@ class MP_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves node and all its descendants to a new position
@@ -623,7 +623,7 @@ class MP_NodeManager(NodeManager):
         )  # Subtract the parent node from the count
         return qs
 
-    @transaction.atomic
+    @atomic
     def load_bulk(
         self,
         bulk_data,
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index cd492ae..40eca71 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -5,14 +5,14 @@ from functools import reduce
 from itertools import groupby
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Case, F, Q, When
 from django.dispatch import Signal
 from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic, check_create_args
 
 gap_altered = Signal()
 tree_ids_incremented = Signal()
@@ -109,7 +109,7 @@ class NS_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
@@ -138,7 +138,7 @@ class NS_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the target."""
@@ -177,7 +177,7 @@ class NS_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """Adds a new node as a sibling to the target."""
@@ -255,7 +255,7 @@ class NS_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/utils.py b/treebeard/utils.py
index b2575bf..7612270 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -1,9 +1,10 @@
+import functools
 import inspect
 from typing import Any, TypedDict
 
 from django.core import serializers
 from django.core.serializers.base import DeserializedObject
-from django.db import models
+from django.db import models, router, transaction
 
 from treebeard.exceptions import NodeAlreadySaved
 
@@ -41,6 +42,19 @@ def save_m2m(node: models.Model, deserialized_obj: DeserializedObject):
         deserialized_obj.m2m_data = None  # Avoid accidental reuse of m2m_data if save() is called on the object
 
 
+def atomic(func):
+    """
+    Decorator to run a manager or queryset method in a transaction, on the database that its model is written to.
+    """
+
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        with transaction.atomic(using=self._db or router.db_for_write(self.model)):
+            return func(self, *args, **kwargs)
+
+    return wrapper
+
+
 def check_create_args(func):
     """
     Decorator to validate `create_kwargs` and `instance` parameters for methods that
-- 
2.43.0


From 90a3d09b2df39c87191902eb3a3d4093cd7b8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 24/55] fix: TreeAdmin rolled back the default database instead
 of the one the model is written to

---
 treebeard/admin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 38ad92c..975bd34 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -6,7 +6,7 @@ from django import forms
 from django.contrib import admin, messages
 from django.contrib.admin.templatetags.admin_list import result_list
 from django.core.exceptions import PermissionDenied
-from django.db import transaction
+from django.db import router, transaction
 from django.db.models.query import QuerySet
 from django.http import HttpResponse, HttpResponseBadRequest, JsonResponse
 from django.shortcuts import get_object_or_404
@@ -60,7 +60,7 @@ class TreeAdmin(admin.ModelAdmin):
         response = super()._changeform_view(*args, **kwargs)
         if getattr(response, "context_data", {}).get("errors", None):
             # There was an error somewhere, likely in an inline, so we'll need to roll back
-            transaction.set_rollback(True)
+            transaction.set_rollback(True, using=router.db_for_write(self.model))
         return response
 
     def get_urls(self):
-- 
2.43.0


From 02a2170e35c196c7b217cd5aee4943e30cfa06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 25/55] fix: deleting nodes was not atomic: a failure in
 between left a broken tree

---
 treebeard/ltree/__init__.py | 1 +
 treebeard/mp_tree.py        | 1 +
 treebeard/ns_tree.py        | 1 +
 3 files changed, 3 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 59db4e3..7b5580b 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -96,6 +96,7 @@ class LT_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 6a3b7f5..34fc893 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -29,6 +29,7 @@ class MP_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 40eca71..c93a2aa 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -27,6 +27,7 @@ class NS_NodeQuerySet(models.query.QuerySet):
     Needed only for the customized delete method.
     """
 
+    @atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
-- 
2.43.0


From 1d7c3569dd5e131e40455a691ff9a9ea4072c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 26/55] fix: the admin children view crashed on a parent id
 which is not valid for the primary key

---
 treebeard/admin.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 975bd34..f24fa9c 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -5,10 +5,10 @@ import warnings
 from django import forms
 from django.contrib import admin, messages
 from django.contrib.admin.templatetags.admin_list import result_list
-from django.core.exceptions import PermissionDenied
+from django.core.exceptions import PermissionDenied, ValidationError
 from django.db import router, transaction
 from django.db.models.query import QuerySet
-from django.http import HttpResponse, HttpResponseBadRequest, JsonResponse
+from django.http import Http404, HttpResponse, HttpResponseBadRequest, JsonResponse
 from django.shortcuts import get_object_or_404
 from django.template import loader
 from django.urls import path
@@ -36,7 +36,10 @@ class TreeAdmin(admin.ModelAdmin):
             return super().get_queryset(request)
 
         if request._treebeard_parent_id:
-            parent = get_object_or_404(self.model, pk=request._treebeard_parent_id)
+            try:
+                parent = get_object_or_404(self.model, pk=request._treebeard_parent_id)
+            except (ValueError, ValidationError):  # Not a value for the primary key
+                raise Http404
             request._treebeard_parent = parent
             qs = self.model.objects.get_children(parent)
         else:
-- 
2.43.0


From 0a7963b46d8edc6d195f7d8bdf67d6581224eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 27/55] fix: AL moving a node onto itself left the target
 object with its old sib_order

---
 treebeard/al_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index ff121f1..cb4a83b 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -118,6 +118,7 @@ class AL_NodeManager(NodeManager):
 
         sib_order = None
         parent = None
+        original_target = target
 
         if pos in ("first-child", "last-child", "sorted-child"):
             if node.pk == target.pk:
@@ -154,6 +155,8 @@ class AL_NodeManager(NodeManager):
 
         node.save(using=self._db)
         node._clear_cached_attributes()
+        if original_target.pk == node.pk:
+            original_target.refresh_from_db()  # It may be another object for the same node
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
-- 
2.43.0


From 2eb1c97b1020f32777ce3a760fceebc72bb065ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 28/55] fix: adding an unsaved instance (or load_bulk) with the
 primary key of an existing node overwrote that node and broke the tree

---
 treebeard/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/treebeard/utils.py b/treebeard/utils.py
index 7612270..b2dc3e7 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -61,7 +61,8 @@ def check_create_args(func):
     create new model objects.
 
     - Ensures that only one of `create_kwargs` and `instance` are set.
-    - If `instance` is provided, ensures that is it an unsaved model object
+    - If `instance` is provided, ensures that is it an unsaved model object, and that
+      its primary key (if any) doesn't belong to another node, which would be overwritten
     """
     sig = inspect.signature(func)
 
@@ -79,6 +80,14 @@ def check_create_args(func):
         if instance and not instance._state.adding:
             raise NodeAlreadySaved("Attempted to add a tree node that is already in the database")
 
+        if instance and instance.pk is not None:
+            manager = bound.arguments["self"]
+            # When the primary key has a default, Django always inserts the node, and the database rejects duplicates
+            if not manager.tree_model._meta.pk.has_default():
+                using = manager._db or router.db_for_write(manager.model)
+                if manager.tree_model._base_manager.using(using).filter(pk=instance.pk).exists():
+                    raise NodeAlreadySaved("Attempted to add a tree node that is already in the database")
+
         return func(*args, **kwargs)
 
     return wrapper
-- 
2.43.0


From 039d0fff19603021ba2391ef2d1208f2e30220ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 29/55] fix: the admin change list crashed on HEAD and on a
 POST that is no bulk action

---
 treebeard/admin.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index f24fa9c..2e3fbfa 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -4,6 +4,7 @@ import warnings
 
 from django import forms
 from django.contrib import admin, messages
+from django.contrib.admin.helpers import ACTION_CHECKBOX_NAME
 from django.contrib.admin.templatetags.admin_list import result_list
 from django.core.exceptions import PermissionDenied, ValidationError
 from django.db import router, transaction
@@ -78,7 +79,14 @@ class TreeAdmin(admin.ModelAdmin):
         return new_urls + super().get_urls()
 
     def changelist_view(self, request, extra_context=None):
-        if request.method == "GET":
+        # A bulk action may apply to any node, everything else shows the root nodes
+        is_action = (
+            request.method == "POST"
+            and ("index" in request.POST or ACTION_CHECKBOX_NAME in request.POST)
+            and "_save" not in request.POST
+            and self.get_actions(request)
+        )
+        if not is_action:
             request._treebeard_parent_id = None
         return super().changelist_view(request, extra_context)
 
-- 
2.43.0


From 445929d680f45bbae0e1b795899c68f7e1ee64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 30/55] fix: MoveNodeForm did not re-sort a node after a change
 of a field in descending order

---
 treebeard/forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index e978478..9662af7 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -168,7 +168,7 @@ class MoveNodeForm(forms.ModelForm):
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
-            *(manager.tree_model.node_order_by or []),
+            *(field.removeprefix("-") for field in manager.tree_model.node_order_by or []),
         }
         if not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
-- 
2.43.0


From c98cfbc89aa0a4fd1881e0bdc2a1e929567d22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 31/55] fix: MoveNodeForm crashed on an instance that is not
 saved yet

---
 treebeard/forms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 9662af7..b69d8d3 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -135,7 +135,8 @@ class MoveNodeForm(forms.ModelForm):
 
         # Set initial values for treebeard fields
 
-        initial_ = self._get_initial(instance) if instance else {}
+        node = None if instance is None or instance._state.adding else instance
+        initial_ = self._get_initial(node) if node else {}
         if initial is not None:
             initial_.update(initial)
 
@@ -146,7 +147,7 @@ class MoveNodeForm(forms.ModelForm):
             self.__position_choices_sorted if self.is_sorted else self.__position_choices_unsorted
         )
 
-        self._set_ref_model_queryset(opts, instance)
+        self._set_ref_model_queryset(opts, node)
 
     def save(self, commit=True):
         """
-- 
2.43.0


From 2581b341b711fd2791866cd53f3a74e4967dd712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 32/55] fix: MoveNodeForm.save on an invalid form changed the
 tree before it raised ValueError

---
 treebeard/forms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index b69d8d3..c9d69ac 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -161,6 +161,10 @@ class MoveNodeForm(forms.ModelForm):
         inlines report an error. If you use this form elsewhere, you will need to do the same.
         """
 
+        if self.errors:
+            # Raises ValueError, before anything is written
+            return super().save(commit=commit)
+
         reference_node = self.cleaned_data.pop("treebeard_ref_node", None)
         position_type = self.cleaned_data.pop("treebeard_position")
         manager = self._meta.model.objects
-- 
2.43.0


From c44498603b231d705eb935334ab7a1180bb1b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 33/55] fix: MoveNodeForm raised PathOverflow for a new node
 beside a reference node that has no room for children

---
 treebeard/forms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index c9d69ac..c3b56f2 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -179,7 +179,9 @@ class MoveNodeForm(forms.ModelForm):
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-            if reference_node:
+            if reference_node and position_type in ("left", "right", "sorted-sibling"):
+                self.instance = manager.add_sibling(reference_node, position_type, instance=self.instance)
+            elif reference_node:
                 self.instance = manager.add_child(reference_node, instance=self.instance)
                 manager.move(self.instance, reference_node, pos=position_type)
             else:
-- 
2.43.0


From b24e0204067ba5908b2714a0faf5039216aa4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:50 +0000
Subject: [PATCH 34/55] fix: MoveNodeForm of an AL child model offered the node
 itself, and refused other nodes that it offered

---
 treebeard/forms.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index c3b56f2..a9364e4 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -105,18 +105,17 @@ class MoveNodeForm(forms.ModelForm):
         if issubclass(opts.model, AL_Node):
             choices = opts.model.objects.get_tree()
             descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance else []
+            excluded = {node.pk for node in descendants}
             field = self.fields["treebeard_ref_node"]
             self.fields["treebeard_ref_node"]._choices = [("", "--------")] + [
                 (field.prepare_value(node), field.label_from_instance(node))
                 for node in choices
-                if node not in descendants
+                if node.pk not in excluded
             ]
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(
-                pk__in=[node.pk for node in descendants]
-            )
+            self.fields["treebeard_ref_node"].queryset = opts.model.objects.tree_model.objects.exclude(pk__in=excluded)
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From 8df24b48e27a84d2207e3dd8f3a9bd3718548ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 35/55] fix: MoveNodeForm raised PathOverflow for a new first
 child of a node whose last child has the last but one position

---
 treebeard/forms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index a9364e4..ac148e8 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -178,11 +178,13 @@ class MoveNodeForm(forms.ModelForm):
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-            if reference_node and position_type in ("left", "right", "sorted-sibling"):
+            first_child = manager.get_first_child(reference_node) if position_type == "first-child" and reference_node else None
+            if first_child:
+                self.instance = manager.add_sibling(first_child, "left", instance=self.instance)
+            elif reference_node and position_type in ("left", "right", "sorted-sibling"):
                 self.instance = manager.add_sibling(reference_node, position_type, instance=self.instance)
             elif reference_node:
                 self.instance = manager.add_child(reference_node, instance=self.instance)
-                manager.move(self.instance, reference_node, pos=position_type)
             else:
                 self.instance = manager.add_root(instance=self.instance)
         else:
-- 
2.43.0


From dba0f8f9d96ad2dd8e1e22f5a65d61eb24f1a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 36/55] fix: MoveNodeForm stored a node without a place when a
 new node was submitted at the form's initial place

---
 treebeard/forms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index ac148e8..f2443f2 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -168,13 +168,14 @@ class MoveNodeForm(forms.ModelForm):
         position_type = self.cleaned_data.pop("treebeard_position")
         manager = self._meta.model.objects
 
-        # If no treebeard fields have been modified, skip treebeard-specific logic and delegate to parent class
+        # If no treebeard fields of a saved node have been modified, skip treebeard-specific logic and delegate to
+        # parent class
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
             *(field.removeprefix("-") for field in manager.tree_model.node_order_by or []),
         }
-        if not set(self.changed_data) & treebeard_fields:
+        if not self.instance._state.adding and not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-- 
2.43.0


From 7c35665f34d28b1fa99e45bc492e10e90de0c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 37/55] fix: AL get_parent raised DoesNotExist through a proxy
 of a child model when the parent is of another model

---
 treebeard/al_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index cb4a83b..d6bab45 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -255,7 +255,7 @@ class AL_NodeManager(NodeManager):
             if node.parent_id is None:
                 return None
 
-            return self.get(pk=node.parent_id)
+            return self.tree_model.objects.get(pk=node.parent_id)
 
         return node.parent
 
-- 
2.43.0


From 01eabdf28d3bd731534d006997153ea90509a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 38/55] fix: a proxy of a proxy model got nodes of the base
 class from the tree methods

---
 treebeard/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/models.py b/treebeard/models.py
index e63cd36..b337e2e 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -197,7 +197,7 @@ class NodeManager(models.Manager):
         """
         cls = self.model
         base_class = cls._meta.get_field(cls.TREEBEARD_IDENTIFYING_FIELD).model
-        if cls._meta.proxy_for_model == base_class:
+        if cls._meta.concrete_model == base_class:
             return cls
 
         return base_class
-- 
2.43.0


From d837215b290eac76d8ea42a7c6aca8156e56e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 39/55] fix: deprecation warnings of moved class methods point
 at the caller

They were attributed to the caller's caller, so that the default filters, which
show deprecations in __main__, hid them.
---
 treebeard/deprecation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/deprecation.py b/treebeard/deprecation.py
index 17997af..34ebd55 100644
--- a/treebeard/deprecation.py
+++ b/treebeard/deprecation.py
@@ -17,7 +17,7 @@ def _handle_moved_classmethod(cls, *args, treebeard_method, **kwargs):  # pragma
         f"Using {cls.__name__}.{treebeard_method}() is deprecated. "
         f"Use {cls.__name__}.objects.{treebeard_method}() instead.",
         RemovedInTreebeard8Warning,
-        stacklevel=3,
+        stacklevel=2,
     )
     return getattr(cls.objects, treebeard_method)(*args, **kwargs)
 
-- 
2.43.0


From 4d56a09aa2b542d613deb5c4a742a72251878cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 40/55] fix: AL dump_bulk raised KeyError for a branch whose
 top is handled through an inherited model

---
 treebeard/al_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index d6bab45..9b7c5b6 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -165,6 +165,10 @@ class AL_NodeManager(NodeManager):
     def dump_bulk(self, parent=None, keep_ids=True):
         """Dumps a tree branch to a python data structure."""
 
+        if parent and parent._meta.concrete_model != self.tree_model._meta.concrete_model:
+            # Like its descendants, a parent of an inherited model is dumped with the fields of the tree model
+            parent = self.tree_model.objects.get(pk=parent.pk)
+
         # a list of nodes: not really a queryset, but it works
         objs = self.get_tree(parent)
 
-- 
2.43.0


From 1ee20d855adcc552c160e9dc7770779b6bd13a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 41/55] fix: load_bulk of an inherited model didn't find the
 primary keys that dump_bulk stores with MP and LT

---
 treebeard/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/utils.py b/treebeard/utils.py
index b2dc3e7..3685513 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -21,10 +21,12 @@ def prepare_dumpdata_for_loading(
     Given data previously dumped using dump_data, prepares a DeserializedObject for use with load_data.
     """
     pk_field = cls._meta.pk.attname
+    tree_pk_field = cls.objects.tree_model._meta.pk.attname  # dumps have the nodes of the tree model
     model_identifier = str(cls._meta)
     output = []
     for item in data:
-        obj = {"fields": item["data"], "model": model_identifier, "pk": item[pk_field] if keep_ids else None}
+        key = pk_field if pk_field in item else tree_pk_field
+        obj = {"fields": item["data"], "model": model_identifier, "pk": item[key] if keep_ids else None}
         deserialized_obj = next(serializers.deserialize("python", [obj]))
         deserialized_obj.children = prepare_dumpdata_for_loading(cls, data=item.get("children", []), keep_ids=keep_ids)
         output.append(deserialized_obj)
-- 
2.43.0


From 8ea94dc4cf02e2a96c4770b3a017625c9d6637df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 42/55] fix: admin tree showed the children of a row that was
 collapsed while they were loading

---
 treebeard/static/treebeard/treebeard-admin.js | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/treebeard/static/treebeard/treebeard-admin.js b/treebeard/static/treebeard/treebeard-admin.js
index 4010f20..0ff0a94 100644
--- a/treebeard/static/treebeard/treebeard-admin.js
+++ b/treebeard/static/treebeard/treebeard-admin.js
@@ -51,7 +51,9 @@
         loadChildren(resultList = [], contextList = [], page = 1) {
             this.$elem.attr("data-children-loaded", "1");
             this.childrenLoaded = true;
-            this.$elem.find("a.treebeard-collapse").removeClass("treebeard-collapsed").addClass("treebeard-loading");
+            if (page === 1) {
+                this.$elem.find("a.treebeard-collapse").removeClass("treebeard-collapsed").addClass("treebeard-loading");
+            }
             const params = new URLSearchParams(window.location.search);
             params.set("p", page);
 
@@ -66,7 +68,12 @@
                 const $resultList = $(resultList);
                 setupData($resultList, contextList);
                 $resultList.insertAfter(this.$elem);
-                this.$elem.find("a.treebeard-collapse").removeClass("treebeard-loading").addClass("treebeard-expanded");
+                const $button = this.$elem.find("a.treebeard-collapse").removeClass("treebeard-loading");
+                if (this.isCollapsed()) { // The node (or an ancestor) was collapsed while loading
+                    $resultList.hide();
+                } else {
+                    $button.addClass("treebeard-expanded");
+                }
             });
         }
     }
-- 
2.43.0


From 881bad5d8864c6f38bcc9e3195f2a597459c4043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 43/55] fix: MP dump_bulk raised KeyError for nodes whose
 stored depth is wrong

---
 treebeard/mp_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 34fc893..3e111cc 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -740,7 +740,7 @@ class MP_NodeManager(NodeManager):
         # Because of fix_tree, this method assumes that the depth
         # and numchild properties in the nodes can be incorrect,
         # so no helper methods are used
-        qset = cls.objects.all().order_by("depth", "path")
+        qset = cls.objects.all().order_by("path")
         if parent:
             qset = qset.filter(path__startswith=parent.path)
         ret, lnk = [], {}
-- 
2.43.0


From 9bd63a43594245f8fc1ef5413f3d7018af6d7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 44/55] fix: add_child failed on locking its row with managers
 that use select_related

---
 treebeard/al_tree.py        | 2 +-
 treebeard/ltree/__init__.py | 2 +-
 treebeard/mp_tree.py        | 2 +-
 treebeard/ns_tree.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 9b7c5b6..44ec849 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -78,7 +78,7 @@ class AL_NodeManager(NodeManager):
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the node."""
         # Lock the parent row
-        self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
+        self.tree_model._base_manager.filter(pk=target.pk).select_for_update().only("pk").get()
         newobj = instance or self.model(**create_kwargs)
 
         try:
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 7b5580b..ff204d7 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -204,7 +204,7 @@ class LT_NodeManager(NodeManager):
         ```
         """
         # Lock parent row
-        self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
+        self.tree_model._base_manager.filter(pk=target.pk).select_for_update().only("pk").get()
         if self.model.node_order_by and not target.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 3e111cc..0d3b8dd 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -398,7 +398,7 @@ class MP_NodeManager(NodeManager):
         :raise PathOverflow: when no more child nodes can be added
         """
         # Lock the parent row
-        node = target.__class__.objects.select_for_update().get(pk=target.pk)
+        node = target.__class__._base_manager.select_for_update().get(pk=target.pk)
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index c93a2aa..ec9c1df 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -146,7 +146,7 @@ class NS_NodeManager(NodeManager):
         # Fetch the parent afresh from the database and lock the row
         # This guards against race conditions and state drift when adding multiple children,
         # and also ensures that we're working with the base tree model in the case of inherited models
-        node = target.__class__.objects.filter(pk=target.pk).select_for_update().get()
+        node = target.__class__._base_manager.filter(pk=target.pk).select_for_update().get()
         if not node.is_leaf():
             # there are child nodes, delegate insertion to add_sibling
             if node.node_order_by:
-- 
2.43.0


From 4756f586d6fd451aa0dc40fb9aa85eea8c14bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 45/55] fix: MP and LT querysets with select_related couldn't
 be deleted

---
 treebeard/ltree/__init__.py | 3 ++-
 treebeard/mp_tree.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index ff204d7..dea2216 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -107,7 +107,8 @@ class LT_NodeQuerySet(models.query.QuerySet):
         """
         # Construct the minimal list of nodes that need deleting along with their descendants
         paths_to_remove = set()
-        for node in self.order_by("path").only("path").prefetch_related(None).iterator():
+        nodes = self.order_by("path").only("path")
+        for node in nodes.select_related(None).prefetch_related(None).iterator():
             found = False
             for depth in range(1, len(node.path)):
                 path = node.path[0:depth]
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0d3b8dd..05964d7 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -42,7 +42,8 @@ class MP_NodeQuerySet(models.query.QuerySet):
         # to be deleted and remove nodes from the list if an ancestor is
         # already getting removed, since that would be redundant
         removed = {}
-        for node in self.order_by("depth", "path").only("path", "depth", "numchild").prefetch_related(None).iterator():
+        nodes = self.order_by("depth", "path").only("path", "depth", "numchild")
+        for node in nodes.select_related(None).prefetch_related(None).iterator():
             found = False
             for depth in range(1, int(len(node.path) / node.steplen)):
                 path = node._get_basepath(node.path, depth)
-- 
2.43.0


From 52f86fd22065188061bb76ea7b7bb433577df7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 46/55] fix: dump_bulk and find_problems failed with managers
 that use prefetch_related

---
 treebeard/ltree/__init__.py | 2 +-
 treebeard/mp_tree.py        | 6 +++---
 treebeard/ns_tree.py        | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index dea2216..6b90afa 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -381,7 +381,7 @@ class LT_NodeManager(NodeManager):
             qset = qset.filter(path__descendants=parent.path)
         ret, lnk = [], {}
         pk_field = cls._meta.pk.attname
-        for pyobj in serializers.serialize("python", qset.iterator()):
+        for pyobj in serializers.serialize("python", qset.iterator(chunk_size=2000)):
             # django's serializer stores the attributes in 'fields'
             fields = pyobj["fields"]
             path = PathValue(fields["path"])
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 05964d7..d8dd861 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -264,7 +264,7 @@ class MP_NodeManager(NodeManager):
             # Our friend MySQL doesn't support update queries that use a select from the same table
             # So we have to update each object individually
             to_update = []
-            for node in qs.iterator():
+            for node in qs.prefetch_related(None).iterator():
                 node.numchild = node.real_numchild
                 to_update.append(node)
 
@@ -305,7 +305,7 @@ class MP_NodeManager(NodeManager):
 
         evil_chars, bad_steplen, orphans = [], [], []
         wrong_depth, wrong_numchild = [], []
-        for node in qs.iterator():
+        for node in qs.prefetch_related(None).iterator():
             found_error = False
             for char in node.path:
                 if char not in cls.alphabet:
@@ -746,7 +746,7 @@ class MP_NodeManager(NodeManager):
             qset = qset.filter(path__startswith=parent.path)
         ret, lnk = [], {}
         pk_field = cls._meta.pk.attname
-        for pyobj in serializers.serialize("python", qset.iterator()):
+        for pyobj in serializers.serialize("python", qset.iterator(chunk_size=2000)):
             # django's serializer stores the attributes in 'fields'
             fields = pyobj["fields"]
             path = fields["path"]
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index ec9c1df..82e74d4 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -389,7 +389,7 @@ class NS_NodeManager(NodeManager):
         qset = self.get_tree(parent)
         ret, lnk = [], {}
         pk_field = self.model._meta.pk.attname
-        for pyobj in qset.iterator():
+        for pyobj in qset.iterator(chunk_size=2000):
             serobj = serializers.serialize("python", [pyobj])[0]
             # django's serializer stores the attributes in 'fields'
             fields = serobj["fields"]
@@ -451,7 +451,8 @@ class NS_NodeManager(NodeManager):
         reversed_lft_rgt, overlapping_nodes, duplicate_tree_ids, wrong_depth = [], [], [], []
 
         # Iterate over the nodes in order of tree_id and lft
-        qs = qs.order_by("tree_id", "lft").values("pk", "tree_id", "lft", "rgt", "depth").iterator()
+        qs = qs.order_by("tree_id", "lft").values("pk", "tree_id", "lft", "rgt", "depth")
+        qs = qs.prefetch_related(None).iterator()
 
         # Consider each tree individually
         for tree_id, nodes in groupby(qs, operator.itemgetter("tree_id")):
-- 
2.43.0


From fd731dd51f0590674a2f321fdad12e1047da1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 47/55] fix: LT add_child and moves failed with managers that
 use prefetch_related

---
 treebeard/ltree/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 6b90afa..007a56b 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -182,7 +182,8 @@ class LT_NodeManager(NodeManager):
         if last_root:
             # adding the new root node as the last one
             newobj.path = generate_path(
-                skip=self.get_root_nodes().values_list("path", flat=True), after=last_root.path[-1]
+                skip=self.get_root_nodes().prefetch_related(None).values_list("path", flat=True),
+                after=last_root.path[-1],
             )
         else:
             # adding the first root node
@@ -222,7 +223,7 @@ class LT_NodeManager(NodeManager):
             # adding the new child as the last one
             newobj.path = generate_path(
                 prefix=target.path,
-                skip=self.get_children(target).values_list("path", flat=True),
+                skip=self.get_children(target).prefetch_related(None).values_list("path", flat=True),
                 after=self.get_children(target).last().path[-1],
             )
 
@@ -421,7 +422,7 @@ class LT_NodeManager(NodeManager):
                 prefix=prefix,
                 before=insert_before_path,
                 after=insert_after_path,
-                skip=siblings.values_list("path", flat=True),
+                skip=siblings.prefetch_related(None).values_list("path", flat=True),
             )
         except InvalidLabelConstraints:
             # We failed to find a path within the available range. That means we need to move the insert_before
@@ -446,7 +447,7 @@ class LT_NodeManager(NodeManager):
         node_depth = len(start_node.path)
 
         siblings = self.get_siblings(start_node).filter(path__gte=start_node.path)
-        labels = [path[-1] for path in siblings.values_list("path", flat=True)]
+        labels = [path[-1] for path in siblings.prefetch_related(None).values_list("path", flat=True)]
         if any(after.startswith(before) and after[len(before)] < "A" for before, after in itertools.pairwise(labels)):
             # Appending an A would change the order of these siblings ("B" < "B0", but "BA" > "B0A").
             # Appending a 0 preserves it, as long as the siblings are moved one by one, from the right.
-- 
2.43.0


From 6e20b580f701861493009e8be12db32874ce617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 48/55] fix: LT nodes whose path is deferred raised KeyError

---
 treebeard/ltree/fields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treebeard/ltree/fields.py b/treebeard/ltree/fields.py
index 7c3575d..89017fc 100644
--- a/treebeard/ltree/fields.py
+++ b/treebeard/ltree/fields.py
@@ -45,6 +45,9 @@ class PathValueProxy:
         if instance is None:
             return self
 
+        if self.field_name not in instance.__dict__:
+            # The field is deferred
+            instance.refresh_from_db(fields=[self.field_name])
         value = instance.__dict__[self.field_name]
 
         if value is None:
-- 
2.43.0


From c4ab92350385775ec0a106086ce9ebf941d1f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 49/55] fix: deleting a reversed queryset of NS nodes corrupted
 the tree

---
 treebeard/ns_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 82e74d4..009373b 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -41,7 +41,9 @@ class NS_NodeQuerySet(models.query.QuerySet):
         last_node = None
         toremove = []
         ranges = []
-        for node in self.order_by("tree_id", "lft").values("tree_id", "lft", "rgt").prefetch_related(None).iterator():
+        nodes = self.order_by("tree_id", "lft")
+        nodes.query.standard_ordering = True  # order_by() doesn't undo reverse()
+        for node in nodes.values("tree_id", "lft", "rgt").prefetch_related(None).iterator():
             if (
                 last_node
                 and last_node["tree_id"] == node["tree_id"]
-- 
2.43.0


From 942c2b71aa8fa96a295b7972db7dc3f9eaaa0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 50/55] fix: AL siblings of nodes whose parent has a primary
 key of 0

---
 treebeard/al_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 44ec849..ebfc630 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -210,7 +210,7 @@ class AL_NodeManager(NodeManager):
         :returns: A queryset of all the node's siblings, including the node
             itself.
         """
-        if node.parent_id:
+        if node.parent_id is not None:
             return self.tree_model.objects.filter(parent_id=node.parent_id)
         return self.get_root_nodes()
 
-- 
2.43.0


From 40f000451fa88850b58ace01d155b202ec5c0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 51/55] fix: nodes that are false in a boolean context were
 taken for missing

---
 treebeard/al_tree.py                 | 20 ++++++++--------
 treebeard/forms.py                   | 20 +++++++++-------
 treebeard/ltree/__init__.py          | 36 +++++++++++++++-------------
 treebeard/models.py                  |  2 +-
 treebeard/mp_tree.py                 | 34 +++++++++++++-------------
 treebeard/ns_tree.py                 | 20 ++++++++--------
 treebeard/templatetags/admin_tree.py |  4 ++--
 treebeard/utils.py                   |  6 ++---
 8 files changed, 74 insertions(+), 68 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index ebfc630..976e80e 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -31,7 +31,7 @@ class AL_NodeManager(NodeManager):
             If max_depth is set then the tree is limited to the specified depth, relative
             to the parent (or the root if no parent is specified).
         """
-        if parent:
+        if parent is not None:
             depth = parent.get_depth() + 1
             parent.node_has_children = self.get_children(parent).exists()
             results = [parent]
@@ -48,7 +48,7 @@ class AL_NodeManager(NodeManager):
         if max_depth is not None and depth > max_depth:
             return results
 
-        if parent:
+        if parent is not None:
             qs = self.get_children(parent) if parent.node_has_children else self.none()
         else:
             qs = self.get_root_nodes()
@@ -65,7 +65,7 @@ class AL_NodeManager(NodeManager):
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
         newobj._cached_depth = 1
         if not self.model.node_order_by:
             max = self.tree_model.objects.filter(parent=None).aggregate(max=Max("sib_order"))["max"] or 0
@@ -79,7 +79,7 @@ class AL_NodeManager(NodeManager):
         """Adds a child to the node."""
         # Lock the parent row
         self.tree_model._base_manager.filter(pk=target.pk).select_for_update().only("pk").get()
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
 
         try:
             newobj._cached_depth = target._cached_depth + 1
@@ -100,7 +100,7 @@ class AL_NodeManager(NodeManager):
         """Adds a new node as a sibling to the current node object."""
         pos = self._prepare_pos_var_for_add_sibling(pos)
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
         if not target.node_order_by:
             newobj.sib_order = self._get_new_sibling_order(pos, target)
         newobj.parent_id = target.parent_id
@@ -149,7 +149,7 @@ class AL_NodeManager(NodeManager):
             # special cases, not actually moving the node, so nothing to do
             return
 
-        node.parent = parent or target.parent
+        node.parent = target.parent if parent is None else parent
         if pos != "sorted-sibling":  # sorted-sibling delegates to node_order_by
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
@@ -165,7 +165,7 @@ class AL_NodeManager(NodeManager):
     def dump_bulk(self, parent=None, keep_ids=True):
         """Dumps a tree branch to a python data structure."""
 
-        if parent and parent._meta.concrete_model != self.tree_model._meta.concrete_model:
+        if parent is not None and parent._meta.concrete_model != self.tree_model._meta.concrete_model:
             # Like its descendants, a parent of an inherited model is dumped with the fields of the tree model
             parent = self.tree_model.objects.get(pk=parent.pk)
 
@@ -191,7 +191,7 @@ class AL_NodeManager(NodeManager):
             if keep_ids:
                 newobj[pk_field] = pyobj["pk"]
 
-            if (not parent and depth == 1) or (parent and depth == parent.get_depth()):
+            if (parent is None and depth == 1) or (parent is not None and depth == parent.get_depth()):
                 ret.append(newobj)
             else:
                 parentobj = lnk[node.parent_id]
@@ -271,7 +271,7 @@ class AL_NodeManager(NodeManager):
         ancestors = []
         # We use get_parent() instead of .parent because the method does handling of proxy models
         node = self.get_parent(node)
-        while node:
+        while node is not None:
             ancestors.insert(0, node)
             node = self.get_parent(node)
         return ancestors
@@ -341,7 +341,7 @@ class AL_Node(Node):
 
         depth = 0
         node = self
-        while node:
+        while node is not None:
             node = node.parent
             depth += 1
         self._cached_depth = depth
diff --git a/treebeard/forms.py b/treebeard/forms.py
index f2443f2..4d7314a 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -82,7 +82,7 @@ class MoveNodeForm(forms.ModelForm):
             ref_node = manager.get_parent(instance)
         else:
             prev_sibling = manager.get_prev_sibling(instance)
-            if prev_sibling:
+            if prev_sibling is not None:
                 position = "right"
                 ref_node = prev_sibling
             else:
@@ -104,7 +104,7 @@ class MoveNodeForm(forms.ModelForm):
         """
         if issubclass(opts.model, AL_Node):
             choices = opts.model.objects.get_tree()
-            descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance else []
+            descendants = [] if instance is None else opts.model.objects.get_descendants(instance, include_self=True)
             excluded = {node.pk for node in descendants}
             field = self.fields["treebeard_ref_node"]
             self.fields["treebeard_ref_node"]._choices = [("", "--------")] + [
@@ -119,7 +119,7 @@ class MoveNodeForm(forms.ModelForm):
             return
 
         queryset = opts.model.objects.get_tree()
-        descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance else None
+        descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance is not None else None
         if descendants:
             queryset = queryset.exclude(pk__in=descendants.values_list("pk", flat=True))
 
@@ -135,7 +135,7 @@ class MoveNodeForm(forms.ModelForm):
         # Set initial values for treebeard fields
 
         node = None if instance is None or instance._state.adding else instance
-        initial_ = self._get_initial(node) if node else {}
+        initial_ = self._get_initial(node) if node is not None else {}
         if initial is not None:
             initial_.update(initial)
 
@@ -179,18 +179,20 @@ class MoveNodeForm(forms.ModelForm):
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-            first_child = manager.get_first_child(reference_node) if position_type == "first-child" and reference_node else None
-            if first_child:
+            first_child = None
+            if position_type == "first-child" and reference_node is not None:
+                first_child = manager.get_first_child(reference_node)
+            if first_child is not None:
                 self.instance = manager.add_sibling(first_child, "left", instance=self.instance)
-            elif reference_node and position_type in ("left", "right", "sorted-sibling"):
+            elif reference_node is not None and position_type in ("left", "right", "sorted-sibling"):
                 self.instance = manager.add_sibling(reference_node, position_type, instance=self.instance)
-            elif reference_node:
+            elif reference_node is not None:
                 self.instance = manager.add_child(reference_node, instance=self.instance)
             else:
                 self.instance = manager.add_root(instance=self.instance)
         else:
             self.instance.save()
-            if reference_node:
+            if reference_node is not None:
                 manager.move(self.instance, reference_node, pos=position_type)
             else:
                 pos = "sorted-sibling" if self.is_sorted else "first-sibling"
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 007a56b..ba00347 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -153,11 +153,11 @@ class LT_NodeManager(NodeManager):
         cls = self.tree_model
 
         filters = {}
-        if parent:
+        if parent is not None:
             filters["path__descendants"] = parent.path
 
         if max_depth is not None:
-            filters["path__depth__lte"] = max_depth + (parent.get_depth() if parent else 0)
+            filters["path__depth__lte"] = max_depth + (parent.get_depth() if parent is not None else 0)
 
         return cls.objects.filter(**filters)
 
@@ -170,16 +170,20 @@ class LT_NodeManager(NodeManager):
         # do we have a root node already?
         last_root = self.get_last_root_node()
 
-        if last_root and last_root.node_order_by:
+        if last_root is not None and last_root.node_order_by:
             # There are root nodes and node_order_by has been set.
             # Delegate sorted insertion to add_sibling.
             # We must pass an instance here to ensure that the right object is created for
             # models with multi-table inheritance.
-            return self.add_sibling(last_root, "sorted-sibling", instance=instance or self.model(**create_kwargs))
+            return self.add_sibling(
+                last_root,
+                "sorted-sibling",
+                instance=self.model(**create_kwargs) if instance is None else instance,
+            )
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
 
-        if last_root:
+        if last_root is not None:
             # adding the new root node as the last one
             newobj.path = generate_path(
                 skip=self.get_root_nodes().prefetch_related(None).values_list("path", flat=True),
@@ -214,7 +218,7 @@ class LT_NodeManager(NodeManager):
                 self.get_last_child(target), "sorted-sibling", create_kwargs=create_kwargs, instance=instance
             )
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
 
         if target.is_leaf():
             # the node had no children, adding the first child
@@ -245,13 +249,13 @@ class LT_NodeManager(NodeManager):
         """
         pos = self._prepare_pos_var_for_add_sibling(pos)
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
 
         insert_before = None
         insert_after = None
         if pos == "sorted-sibling":
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), newobj).first()
-            if insert_before:
+            if insert_before is not None:
                 insert_after = self.get_prev_sibling(insert_before)
             else:
                 insert_after = self.get_last_sibling(target)
@@ -293,13 +297,13 @@ class LT_NodeManager(NodeManager):
 
         if pos == "sorted-sibling":
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), node).first()
-            if insert_before:
+            if insert_before is not None:
                 insert_after = self.get_prev_sibling(insert_before)
             else:
                 insert_after = self.get_last_sibling(target)
         elif pos == "sorted-child":
             insert_before = self.get_sorted_pos_queryset(self.get_children(target), node).first()
-            if insert_before:
+            if insert_before is not None:
                 insert_after = self.get_prev_sibling(insert_before)
             else:
                 insert_after = self.get_last_child(target)
@@ -358,7 +362,7 @@ class LT_NodeManager(NodeManager):
 
             A Queryset of node objects with an extra attribute: `descendants_count`.
         """
-        qs = self.get_children(parent) if parent else self.get_root_nodes()
+        qs = self.get_children(parent) if parent is not None else self.get_root_nodes()
         subquery = (
             self.tree_model.objects.filter(path__descendants=OuterRef("path"))
             .order_by()
@@ -378,7 +382,7 @@ class LT_NodeManager(NodeManager):
         # and numchild properties in the nodes can be incorrect,
         # so no helper methods are used
         qset = cls.objects.all()
-        if parent:
+        if parent is not None:
             qset = qset.filter(path__descendants=parent.path)
         ret, lnk = [], {}
         pk_field = cls._meta.pk.attname
@@ -397,7 +401,7 @@ class LT_NodeManager(NodeManager):
             if keep_ids:
                 newobj[pk_field] = pyobj["pk"]
 
-            if (not parent and depth == 1) or (parent and len(path) == len(parent.path)):
+            if (parent is None and depth == 1) or (parent is not None and len(path) == len(parent.path)):
                 ret.append(newobj)
             else:
                 parentpath = path[0 : depth - 1]
@@ -409,8 +413,8 @@ class LT_NodeManager(NodeManager):
         return ret
 
     def _get_new_path(self, prefix, insert_before, insert_after, nodes_moved=False, num_iters=0):
-        insert_before_path = insert_before.path[-1] if insert_before else None
-        insert_after_path = insert_after.path[-1] if insert_after else None
+        insert_before_path = insert_before.path[-1] if insert_before is not None else None
+        insert_after_path = insert_after.path[-1] if insert_after is not None else None
 
         if insert_before_path and insert_after_path and insert_after_path > insert_before_path:
             raise ValueError("Invalid path constraints")
diff --git a/treebeard/models.py b/treebeard/models.py
index b337e2e..971e465 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -480,7 +480,7 @@ class NodeManager(models.Manager):
             parent, deserialized_obj = stack.pop()
             node_obj = deserialized_obj.object = (
                 self.add_child(parent, instance=deserialized_obj.object)
-                if parent
+                if parent is not None
                 else self.add_root(instance=deserialized_obj.object)
             )
             save_m2m(node_obj, deserialized_obj)
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index d8dd861..daf1894 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -110,17 +110,17 @@ class MP_NodeManager(NodeManager):
         """
         cls = self.tree_model
 
-        if parent and parent.is_leaf():
+        if parent is not None and parent.is_leaf():
             return cls.objects.filter(pk=parent.pk)
 
         filters = {}
 
-        if parent:
+        if parent is not None:
             filters["path__startswith"] = parent.path
             filters["depth__gte"] = parent.depth
 
         if max_depth is not None:
-            filters["depth__lte"] = max_depth + (parent.depth if parent else 0)
+            filters["depth__lte"] = max_depth + (parent.depth if parent is not None else 0)
 
         return cls.objects.filter(**filters)
 
@@ -157,7 +157,7 @@ class MP_NodeManager(NodeManager):
         """
         cls = self.tree_model
 
-        qs = cls.objects.filter(path__startswith=parent.path) if parent else cls.objects.all()
+        qs = cls.objects.filter(path__startswith=parent.path) if parent is not None else cls.objects.all()
 
         # fix the depth field; we need the exclude query to speed up postgres
         qs.exclude(depth=Length("path") / cls.steplen).update(depth=Length("path") / cls.steplen)
@@ -177,7 +177,7 @@ class MP_NodeManager(NodeManager):
 
                 # Initially children_to_fix is the set of root nodes, i.e. ones with a path
                 # starting with '' and depth 1.
-                children_to_fix = [(parent.path, parent.depth + 1)] if parent else [("", 1)]
+                children_to_fix = [(parent.path, parent.depth + 1)] if parent is not None else [("", 1)]
 
                 while children_to_fix:
                     parent_path, depth = children_to_fix.pop(0)
@@ -357,7 +357,7 @@ class MP_NodeManager(NodeManager):
         # do we have a root node already?
         last_root = self.get_last_root_node()
 
-        if last_root and last_root.node_order_by:
+        if last_root is not None and last_root.node_order_by:
             # There are root nodes and node_order_by has been set.
             # Delegate sorted insertion to add_sibling.
             # We must pass an instance here to ensure that the right object is created for
@@ -365,17 +365,17 @@ class MP_NodeManager(NodeManager):
             return self.add_sibling(
                 last_root,
                 "sorted-sibling",
-                instance=instance or self.model(**create_kwargs),
+                instance=self.model(**create_kwargs) if instance is None else instance,
             )
 
-        if last_root:
+        if last_root is not None:
             # adding the new root node as the last one
             newpath = last_root._inc_path()
         else:
             # adding the first root node
             newpath = self.model._get_path(None, 1, 1)
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
         newobj.depth = 1
         newobj.path = newpath
         # saving the instance before returning it
@@ -407,7 +407,7 @@ class MP_NodeManager(NodeManager):
             target.numchild = node.numchild + 1
             return newobj
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
         newobj.depth = node.depth + 1
 
         if node.is_leaf():
@@ -455,13 +455,13 @@ class MP_NodeManager(NodeManager):
         """
         pos = self._prepare_pos_var_for_add_sibling(pos)
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
         newobj.depth = target.depth
 
         if pos == "sorted-sibling":
             siblings = self.get_sorted_pos_queryset(self.get_siblings(target), newobj)
             first = siblings.first()
-            newpos = first._get_lastpos_in_path() if first else None
+            newpos = first._get_lastpos_in_path() if first is not None else None
             if newpos is None:
                 pos = "last-sibling"
             else:
@@ -505,7 +505,7 @@ class MP_NodeManager(NodeManager):
 
         if pos == "sorted-sibling":
             siblings = self.get_sorted_pos_queryset(self.get_siblings(target), node)
-            if first := siblings.first():
+            if (first := siblings.first()) is not None:
                 newpos = first._get_lastpos_in_path()
                 node_parentpath = node._get_basepath(node.path, node.depth - 1)
                 first_parentpath = first._get_basepath(first.path, first.depth - 1)
@@ -613,7 +613,7 @@ class MP_NodeManager(NodeManager):
         """
         cls = self.tree_model
 
-        qs = self.get_children(parent) if parent else cls.objects.get_root_nodes()
+        qs = self.get_children(parent) if parent is not None else cls.objects.get_root_nodes()
         subquery = (
             cls.objects.filter(path__startswith=OuterRef("path"))
             .order_by()
@@ -710,7 +710,7 @@ class MP_NodeManager(NodeManager):
             deserialized_obj.object.numchild = len(deserialized_obj.children)  # Set numchild manually
             node_obj = (
                 self.add_child(parent, instance=deserialized_obj.object)
-                if parent
+                if parent is not None
                 else self.add_root(instance=deserialized_obj.object)
             )
             save_m2m(node_obj, deserialized_obj)
@@ -742,7 +742,7 @@ class MP_NodeManager(NodeManager):
         # and numchild properties in the nodes can be incorrect,
         # so no helper methods are used
         qset = cls.objects.all().order_by("path")
-        if parent:
+        if parent is not None:
             qset = qset.filter(path__startswith=parent.path)
         ret, lnk = [], {}
         pk_field = cls._meta.pk.attname
@@ -761,7 +761,7 @@ class MP_NodeManager(NodeManager):
             if keep_ids:
                 newobj[pk_field] = pyobj["pk"]
 
-            if (not parent and depth == 1) or (parent and len(path) == len(parent.path)):
+            if (parent is None and depth == 1) or (parent is not None and len(path) == len(parent.path)):
                 ret.append(newobj)
             else:
                 parentpath = cls._get_basepath(path, depth - 1)
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 009373b..30bf585 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -98,17 +98,17 @@ class NS_NodeManager(NodeManager):
         """
         cls = self.tree_model
 
-        if parent and parent.is_leaf():
+        if parent is not None and parent.is_leaf():
             return cls.objects.filter(pk=parent.pk)
 
         filters = {}
 
-        if parent:
+        if parent is not None:
             filters["tree_id"] = parent.tree_id
             filters["lft__range"] = (parent.lft, parent.rgt - 1)
 
         if max_depth is not None:
-            filters["depth__lte"] = max_depth + (parent.depth if parent else 0)
+            filters["depth__lte"] = max_depth + (parent.depth if parent is not None else 0)
 
         return cls.objects.filter(**filters)
 
@@ -120,19 +120,19 @@ class NS_NodeManager(NodeManager):
         # do we have a root node already?
         last_root = self.get_last_root_node()
 
-        if last_root and last_root.node_order_by:
+        if last_root is not None and last_root.node_order_by:
             # there are root nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
             return self.add_sibling(last_root, "sorted-sibling", create_kwargs=create_kwargs, instance=instance)
 
-        if last_root:
+        if last_root is not None:
             # adding the new root node as the last one
             newtree_id = last_root.tree_id + 1
         else:
             # adding the first root node
             newtree_id = 1
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
         newobj.depth = 1
         newobj.tree_id = newtree_id
         newobj.lft = 1
@@ -164,7 +164,7 @@ class NS_NodeManager(NodeManager):
         # we're adding the first child of this node
         self._alter_gap(node.tree_id, node.rgt, 2)
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
         newobj.tree_id = node.tree_id
         newobj.depth = node.depth + 1
         newobj.lft = node.lft + 1
@@ -188,7 +188,7 @@ class NS_NodeManager(NodeManager):
         pos = self._prepare_pos_var_for_add_sibling(pos)
         original_target = target
 
-        newobj = instance or self.model(**create_kwargs)
+        newobj = self.model(**create_kwargs) if instance is None else instance
         newobj.depth = target.depth
 
         if target.is_root():
@@ -353,7 +353,7 @@ class NS_NodeManager(NodeManager):
         node.refresh_from_db()
 
         depthdiff = target.depth - node.depth
-        if parent:
+        if parent is not None:
             depthdiff += 1
 
         # move the tree to the hole
@@ -409,7 +409,7 @@ class NS_NodeManager(NodeManager):
             if keep_ids:
                 newobj[pk_field] = serobj["pk"]
 
-            if (not parent and depth == 1) or (parent and depth == parent.depth):
+            if (parent is None and depth == 1) or (parent is not None and depth == parent.depth):
                 ret.append(newobj)
             else:
                 parentobj = self.model.objects.get_parent(pyobj)
diff --git a/treebeard/templatetags/admin_tree.py b/treebeard/templatetags/admin_tree.py
index 8f6b092..43ee1ae 100644
--- a/treebeard/templatetags/admin_tree.py
+++ b/treebeard/templatetags/admin_tree.py
@@ -54,11 +54,11 @@ def tree_context(cl, request):
     as the `result_list` iterator.
     """
     qs = _get_annotated_context_queryset(cl)
-    depth = request._treebeard_parent.get_depth() + 1 if request._treebeard_parent else 1
+    depth = request._treebeard_parent.get_depth() + 1 if request._treebeard_parent is not None else 1
     return [
         {
             "node-id": str(obj.pk),
-            "parent-id": str(request._treebeard_parent.pk if request._treebeard_parent else 0),
+            "parent-id": str(request._treebeard_parent.pk if request._treebeard_parent is not None else 0),
             "level": depth,
             "has-children": int(obj.treebeard_has_children),
             "can-change": int(cl.model_admin.has_change_permission(request, obj)),
diff --git a/treebeard/utils.py b/treebeard/utils.py
index 3685513..7178ad2 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -73,16 +73,16 @@ def check_create_args(func):
         instance = bound.arguments.get("instance")
         create_kwargs = bound.arguments.get("create_kwargs")
 
-        if instance and create_kwargs:
+        if instance is not None and create_kwargs:
             raise ValueError("Only one of create_kwargs and instance is allowed.")
 
         if instance is None and create_kwargs is None:
             raise ValueError("Either create_kwargs or instance must be supplied")
 
-        if instance and not instance._state.adding:
+        if instance is not None and not instance._state.adding:
             raise NodeAlreadySaved("Attempted to add a tree node that is already in the database")
 
-        if instance and instance.pk is not None:
+        if instance is not None and instance.pk is not None:
             manager = bound.arguments["self"]
             # When the primary key has a default, Django always inserts the node, and the database rejects duplicates
             if not manager.tree_model._meta.pk.has_default():
-- 
2.43.0


From b1fc2e51a4cbefd29becf1787a7ee363be151044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 52/55] fix: admin tree widget with text primary keys, or a
 primary key of 0

---
 treebeard/admin.py                            | 2 +-
 treebeard/static/treebeard/treebeard-admin.js | 6 +++---
 treebeard/templatetags/admin_tree.py          | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 2e3fbfa..413752c 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -73,7 +73,7 @@ class TreeAdmin(admin.ModelAdmin):
         """
         new_urls = [
             path("move/", self.admin_site.admin_view(self.move_node)),
-            path("children/<str:parent_id>/", self.admin_site.admin_view(self.children_view)),
+            path("children/<path:parent_id>/", self.admin_site.admin_view(self.children_view)),
             path("jsi18n/", JavaScriptCatalog.as_view(packages=["treebeard"]), name="javascript-catalog"),
         ]
         return new_urls + super().get_urls()
diff --git a/treebeard/static/treebeard/treebeard-admin.js b/treebeard/static/treebeard/treebeard-admin.js
index 0ff0a94..4d404bc 100644
--- a/treebeard/static/treebeard/treebeard-admin.js
+++ b/treebeard/static/treebeard/treebeard-admin.js
@@ -7,7 +7,7 @@
     class Node {
         constructor(elem) {
             this.$elem = $(elem);
-            this.id = this.$elem.data('node-id');
+            this.id = this.$elem.attr('data-node-id'); // Not data(), which converts values
             this.childrenLoaded = Boolean(this.$elem.data("children-loaded"));
         }
 
@@ -16,7 +16,7 @@
         }
 
         children() {
-            return $('tr[data-parent-id="' + this.id + '"]');
+            return $('tr[data-parent-id="' + $.escapeSelector(this.id) + '"]');
         }
 
         collapse() {
@@ -57,7 +57,7 @@
             const params = new URLSearchParams(window.location.search);
             params.set("p", page);
 
-            $.get(`${GET_CHILDREN_ENDPOINT}${this.id}/`, params.toString()).done(response => {
+            $.get(`${GET_CHILDREN_ENDPOINT}${encodeURIComponent(this.id)}/`, params.toString()).done(response => {
                 resultList.push(...$(response["result_html"]).find("#result_list tbody tr").toArray());
                 contextList.push(...response["tree_context"]);
 
diff --git a/treebeard/templatetags/admin_tree.py b/treebeard/templatetags/admin_tree.py
index 43ee1ae..fd40aa1 100644
--- a/treebeard/templatetags/admin_tree.py
+++ b/treebeard/templatetags/admin_tree.py
@@ -58,7 +58,7 @@ def tree_context(cl, request):
     return [
         {
             "node-id": str(obj.pk),
-            "parent-id": str(request._treebeard_parent.pk if request._treebeard_parent is not None else 0),
+            "parent-id": "" if request._treebeard_parent is None else str(request._treebeard_parent.pk),
             "level": depth,
             "has-children": int(obj.treebeard_has_children),
             "can-change": int(cl.model_admin.has_change_permission(request, obj)),
-- 
2.43.0


From dbf36cab771958bc98269c4c0a5780109fa664b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 53/55] fix: RecursionError with adjacency lists and bulk data
 of about a thousand levels

---
 treebeard/al_tree.py | 21 +++++++++++++--------
 treebeard/utils.py   |  9 ++++++---
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 976e80e..91d6dfc 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -41,12 +41,21 @@ class AL_NodeManager(NodeManager):
             depth = 1
             results = []
 
-        self._get_tree_recursively(results, parent, depth, max_depth=max_depth)
+        # The levels of the branch we are in, each with the nodes that are yet to be visited
+        levels = [iter(self._get_tree_level(parent, depth, max_depth))]
+        while levels:
+            node = next(levels[-1], None)
+            if node is None:
+                levels.pop()
+                continue
+            node._cached_depth = depth + len(levels) - 1
+            results.append(node)
+            levels.append(iter(self._get_tree_level(node, depth + len(levels), max_depth)))
         return results
 
-    def _get_tree_recursively(self, results, parent, depth, max_depth):
+    def _get_tree_level(self, parent, depth, max_depth):
         if max_depth is not None and depth > max_depth:
-            return results
+            return []
 
         if parent is not None:
             qs = self.get_children(parent) if parent.node_has_children else self.none()
@@ -55,11 +64,7 @@ class AL_NodeManager(NodeManager):
 
         # Annotate nodes with `node_has_children`, so that we can avoid unnecessary
         # queries to fetch children on leaf nodes
-        qs = qs.annotate(node_has_children=Exists(self.tree_model.objects.filter(parent=OuterRef("pk"))))
-        for node in qs:
-            node._cached_depth = depth
-            results.append(node)
-            self._get_tree_recursively(results, node, depth + 1, max_depth=max_depth)
+        return qs.annotate(node_has_children=Exists(self.tree_model.objects.filter(parent=OuterRef("pk"))))
 
     @atomic
     @check_create_args
diff --git a/treebeard/utils.py b/treebeard/utils.py
index 7178ad2..390377f 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -24,12 +24,15 @@ def prepare_dumpdata_for_loading(
     tree_pk_field = cls.objects.tree_model._meta.pk.attname  # dumps have the nodes of the tree model
     model_identifier = str(cls._meta)
     output = []
-    for item in data:
+    stack = [(item, output) for item in [*data][::-1]]
+    while stack:
+        item, siblings = stack.pop()
         key = pk_field if pk_field in item else tree_pk_field
         obj = {"fields": item["data"], "model": model_identifier, "pk": item[key] if keep_ids else None}
         deserialized_obj = next(serializers.deserialize("python", [obj]))
-        deserialized_obj.children = prepare_dumpdata_for_loading(cls, data=item.get("children", []), keep_ids=keep_ids)
-        output.append(deserialized_obj)
+        deserialized_obj.children = []
+        siblings.append(deserialized_obj)
+        stack.extend((child, deserialized_obj.children) for child in [*item.get("children", [])][::-1])
 
     return output
 
-- 
2.43.0


From d23bbedf2612b5c96aebf7c86cc7524a0109e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 54/55] fix: deleting more than a thousand branches at once
 failed on SQLite

---
 treebeard/mp_tree.py |  8 +++-----
 treebeard/ns_tree.py |  5 ++---
 treebeard/utils.py   | 18 ++++++++++++++++++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index daf1894..6d8d6b6 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -16,7 +16,7 @@ from treebeard.deprecation import RemovedInTreebeard8Warning
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
 from treebeard.numconv import NumConv
-from treebeard.utils import atomic, check_create_args, prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import atomic, check_create_args, filter_any, prepare_dumpdata_for_loading, save_m2m
 
 path_updated = Signal()
 nodes_deleted = Signal()
@@ -77,10 +77,8 @@ class MP_NodeQuerySet(models.query.QuerySet):
 
         # Django will handle this as a SELECT and then a DELETE of
         # ids, and will deal with removing related objects
-        query = Q(pk__in=pks_to_remove)
-        for path in paths_to_remove:
-            query |= Q(path__startswith=path)
-        count, deletion_map = super(MP_NodeQuerySet, model.objects.filter(query)).delete(*args, **kwargs)
+        conditions = [Q(pk__in=pks_to_remove), *(Q(path__startswith=path) for path in paths_to_remove)]
+        count, deletion_map = super(MP_NodeQuerySet, filter_any(model.objects.all(), conditions)).delete(*args, **kwargs)
         if count > 0:
             nodes_deleted.send(
                 sender=model, pks_to_remove=pks_to_remove, paths_to_remove=paths_to_remove, using=self.db
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 30bf585..9005b32 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -1,7 +1,6 @@
 """Nested Sets"""
 
 import operator
-from functools import reduce
 from itertools import groupby
 
 from django.core import serializers
@@ -12,7 +11,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import atomic, check_create_args
+from treebeard.utils import atomic, check_create_args, filter_any
 
 gap_altered = Signal()
 tree_ids_incremented = Signal()
@@ -62,7 +61,7 @@ class NS_NodeQuerySet(models.query.QuerySet):
 
         # call the default django delete method with the full set of nodes and descendants to delete,
         # and let it handle the removal of the user's foreign keys
-        result = super(NS_NodeQuerySet, model.objects.filter(reduce(operator.or_, toremove))).delete(*args, **kwargs)
+        result = super(NS_NodeQuerySet, filter_any(model.objects.all(), toremove)).delete(*args, **kwargs)
         nodes_deleted.send(sender=model, removed_ranges=ranges, using=self.db)
 
         # Now closing the gap (Celko's trees book, page 62)
diff --git a/treebeard/utils.py b/treebeard/utils.py
index 390377f..dd1324a 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -1,5 +1,6 @@
 import functools
 import inspect
+import operator
 from typing import Any, TypedDict
 
 from django.core import serializers
@@ -47,6 +48,23 @@ def save_m2m(node: models.Model, deserialized_obj: DeserializedObject):
         deserialized_obj.m2m_data = None  # Avoid accidental reuse of m2m_data if save() is called on the object
 
 
+def filter_any(queryset: models.QuerySet, conditions: list[models.Q], batch_size: int = 500) -> models.QuerySet:
+    """
+    Filters a queryset by any of the given conditions.
+
+    Databases limit the depth of an expression (SQLite to 1000), so the primary keys that match a larger
+    number of conditions are looked up in batches.
+    """
+    if len(conditions) <= batch_size:
+        return queryset.filter(functools.reduce(operator.or_, conditions))
+
+    pks = set()
+    for start in range(0, len(conditions), batch_size):
+        batch = functools.reduce(operator.or_, conditions[start : start + batch_size])
+        pks.update(queryset.filter(batch).values_list("pk", flat=True))
+    return queryset.filter(pk__in=pks)
+
+
 def atomic(func):
     """
     Decorator to run a manager or queryset method in a transaction, on the database that its model is written to.
-- 
2.43.0


From e77ffb14d8622f7d6aae2bbae497f99b8644e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 55/55] fix: the admin tree widget's texts were never
 translated

The change list loaded the catalog of the admin's own texts only, and never the one that TreeAdmin serves.
---
 treebeard/templates/admin/tree_change_list.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treebeard/templates/admin/tree_change_list.html b/treebeard/templates/admin/tree_change_list.html
index 7545d99..a658a71 100644
--- a/treebeard/templates/admin/tree_change_list.html
+++ b/treebeard/templates/admin/tree_change_list.html
@@ -10,6 +10,7 @@
 {% block extrahead %}
     {{ block.super }}
     <script src="{% url 'admin:jsi18n' %}"></script>
+    <script src="{% url 'admin:javascript-catalog' %}"></script>
     <script data-csrftoken="{{ csrf_token }}" src="{% static 'treebeard/treebeard-admin.js' %}"></script>
 {% endblock %}
 
-- 
2.43.0

