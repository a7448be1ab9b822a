From 09801a7edec90c7ec540808b1f41fd93eb0f5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:18 +0000
Subject: [PATCH 01/22] fix: build and maintain bidirectional links without the
 debug feature

The crate did not compile with --no-default-features, and the link changes that
drive bidirectional links were not recorded. Only the checks are skipped now.
---
 src/typed_graph.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 44aeeef..db783a6 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -29,6 +29,7 @@ mod transaction;
 pub use transaction::Transaction;
 
 pub mod check;
+#[cfg(feature = "debug")]
 use check::*;
 
 pub mod macros;
@@ -707,6 +708,7 @@ where
     }
   }
 
+  #[cfg(feature = "debug")]
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
     for (_, y, l) in &lcr.adds {
       if let Some(node) = self.nodes.get(*y) {
@@ -717,6 +719,9 @@ where
     }
   }
 
+  #[cfg(not(feature = "debug"))]
+  fn check_link_type(&self, _lcr: &LinkChangeRecorder<NodeT>) {}
+
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
@@ -766,7 +771,6 @@ struct LinkChangeRecorder<NodeT: NodeEnum> {
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
-  #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -778,10 +782,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     }
   }
 
-  #[cfg(not(feature = "debug"))]
-  fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
-
-  #[cfg(feature = "debug")]
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -792,9 +792,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
       self.removes.insert((x, y, l));
     }
   }
-
-  #[cfg(not(feature = "debug"))]
-  fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
 }
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
-- 
2.43.0


From c354af6619bbac3bf3586dd3c18ba763d1188bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:14 +0000
Subject: [PATCH 02/22] fix: run the checks of commit_checked on what has
 changed

Link remove checks ran on the added links, removed nodes made the checks panic,
and new or changed nodes without link changes were not checked.
---
 src/typed_graph.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index db783a6..2fadec1 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -539,6 +539,7 @@ where
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
       self.add_back_links(x, n);
+      lcr.change_node(x);
       for (y, s) in n.iter_sources() {
         lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
       }
@@ -555,6 +556,7 @@ where
     self.remove_back_links(x, &n);
     for (y, s) in self.back_links.swap_remove(&x).unwrap() {
       self.nodes.get_mut(y).unwrap().modify_link(s, x, NodeIndex::empty());
+      lcr.change_node(y);
       lcr.remove_link(y, x, NodeT::to_link_mirror_enum(s));
     }
   }
@@ -563,6 +565,7 @@ where
   where
     F: FnOnce(&mut NodeT),
   {
+    lcr.change_node(x);
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
@@ -580,6 +583,7 @@ where
   where
     F: FnOnce(NodeT) -> NodeT,
   {
+    lcr.change_node(x);
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
@@ -601,6 +605,7 @@ where
     for (y, s) in old_link {
       new_link.insert((y, s));
       let result = self.nodes.get_mut(y).unwrap().modify_link(s, old_node, new_node);
+      lcr.change_node(y);
       // add: if (added) {new_idx} else {ttgraph::NodeIndex::empty()},
       // remove: if (removed) {old_idx} else {ttgraph::NodeIndex::empty()},
       if result.added {
@@ -725,13 +730,10 @@ where
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
-    let mut changed_nodes = OrderSet::new();
-    for (x, _, _) in lcr.adds.iter().chain(lcr.removes.iter()) {
-      changed_nodes.insert(*x);
-    }
     for (name, check_func) in &checks.node_checks {
-      for x in &changed_nodes {
-        if check_func(*x, self.get(*x).unwrap()).is_err() {
+      for x in &lcr.changed_nodes {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, node).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -739,15 +741,17 @@ where
     }
     for (name, check_func) in &checks.link_add_checks {
       for (x, y, _) in &lcr.adds {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.adds {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+      for (x, y, _) in &lcr.removes {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -769,8 +773,13 @@ where
 struct LinkChangeRecorder<NodeT: NodeEnum> {
   adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  changed_nodes: OrderSet<NodeIndex>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
+  fn change_node(&mut self, x: NodeIndex) {
+    self.changed_nodes.insert(x);
+  }
+
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -798,6 +807,7 @@ impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
     LinkChangeRecorder {
       adds: OrderSet::default(),
       removes: OrderSet::default(),
+      changed_nodes: OrderSet::default(),
     }
   }
 }
-- 
2.43.0


From 3403f041d4005f36781114b32cab6fbb325e1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:51 +0000
Subject: [PATCH 03/22] fix: do not report a link change when a Vec holds the
 same link twice

Changing any other field of such a node re-added the link in the record.
---
 src/typed_graph.rs | 49 +++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 2fadec1..6895d7a 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -654,7 +654,7 @@ where
   }
 
   fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in &lcr.removes {
+    for (x, y, l) in lcr.removes() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -668,7 +668,7 @@ where
       }
     }
 
-    for &(x, y, l) in &lcr.adds {
+    for (x, y, l) in lcr.adds() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -715,9 +715,9 @@ where
 
   #[cfg(feature = "debug")]
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
-    for (_, y, l) in &lcr.adds {
-      if let Some(node) = self.nodes.get(*y) {
-        if let Result::Err(err) = NodeT::check_link_type(node.discriminant(), *l) {
+    for (_, y, l) in lcr.adds() {
+      if let Some(node) = self.nodes.get(y) {
+        if let Result::Err(err) = NodeT::check_link_type(node.discriminant(), l) {
           panic!("Link type check failed! Link {:?} expect {:?}, found {:?}", err.link, err.expect, err.found);
         }
       }
@@ -740,18 +740,18 @@ where
       }
     }
     for (name, check_func) in &checks.link_add_checks {
-      for (x, y, _) in &lcr.adds {
-        let Some(node) = self.get(*x) else { continue };
-        if check_func(*x, *y, node, self.get(*y)).is_err() {
+      for (x, y, _) in lcr.adds() {
+        let Some(node) = self.get(x) else { continue };
+        if check_func(x, y, node, self.get(y)).is_err() {
           failed.push(name.as_str());
           break;
         }
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.removes {
-        let Some(node) = self.get(*x) else { continue };
-        if check_func(*x, *y, node, self.get(*y)).is_err() {
+      for (x, y, _) in lcr.removes() {
+        let Some(node) = self.get(x) else { continue };
+        if check_func(x, y, node, self.get(y)).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -771,8 +771,8 @@ where
 }
 
 struct LinkChangeRecorder<NodeT: NodeEnum> {
-  adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
-  removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  /// How many times a link is added (positive) or removed (negative), a Vec may hold the same link more than once
+  link_changes: OrderMap<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum), isize>,
   changed_nodes: OrderSet<NodeIndex>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
@@ -784,29 +784,28 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     if y.is_empty() {
       return;
     }
-    if self.removes.contains(&(x, y, l)) {
-      self.removes.swap_remove(&(x, y, l));
-    } else {
-      self.adds.insert((x, y, l));
-    }
+    *self.link_changes.entry((x, y, l)).or_default() += 1;
   }
 
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
     }
-    if self.adds.contains(&(x, y, l)) {
-      self.adds.swap_remove(&(x, y, l));
-    } else {
-      self.removes.insert((x, y, l));
-    }
+    *self.link_changes.entry((x, y, l)).or_default() -= 1;
+  }
+
+  fn adds(&self) -> impl Iterator<Item = (NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)> + '_ {
+    self.link_changes.iter().filter(|(_, cnt)| **cnt > 0).map(|(link, _)| *link)
+  }
+
+  fn removes(&self) -> impl Iterator<Item = (NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)> + '_ {
+    self.link_changes.iter().filter(|(_, cnt)| **cnt < 0).map(|(link, _)| *link)
   }
 }
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
     LinkChangeRecorder {
-      adds: OrderSet::default(),
-      removes: OrderSet::default(),
+      link_changes: OrderMap::default(),
       changed_nodes: OrderSet::default(),
     }
   }
-- 
2.43.0


From c760801b0ff7b15f45655fd08d48c1cc57beedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:57 +0000
Subject: [PATCH 04/22] fix: record the links changed by bidirectional
 maintenance

They were neither type checked nor seen by commit_checked.
---
 src/typed_graph.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 6895d7a..9b20dfb 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -471,7 +471,7 @@ where
 
     let mut lcr = LinkChangeRecorder::default();
     result.merge_nodes(new_nodes, &mut lcr);
-    result.apply_bidirectional_links(&lcr);
+    result.apply_bidirectional_links(&mut lcr);
     result.check_link_type(&lcr);
     result
   }
@@ -532,7 +532,7 @@ where
       self.remove_node(*n, &mut lcr);
     }
 
-    self.apply_bidirectional_links(&lcr);
+    self.apply_bidirectional_links(&mut lcr);
     lcr
   }
 
@@ -653,8 +653,11 @@ where
     }
   }
 
-  fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for (x, y, l) in lcr.removes() {
+  fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    let removes = Vec::from_iter(lcr.removes());
+    let adds = Vec::from_iter(lcr.adds());
+
+    for (x, y, l) in removes {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -664,11 +667,13 @@ where
       for link in bds {
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
+          lcr.change_node(y);
+          lcr.remove_link(y, x, link);
         }
       }
     }
 
-    for (x, y, l) in lcr.adds() {
+    for (x, y, l) in adds {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -687,6 +692,8 @@ where
         let link = bds.first().unwrap();
         if self.nodes.get_mut(y).unwrap().add_link(*link, x) {
           self.add_back_link(y, x, NodeT::to_source_enum(*link));
+          lcr.change_node(y);
+          lcr.add_link(y, x, *link);
         }
       }
     }
@@ -765,7 +772,7 @@ where
     let mut lcr = LinkChangeRecorder::default();
     let mut graph = Self::new(ctx);
     graph.merge_nodes(arena, &mut lcr);
-    graph.apply_bidirectional_links(&lcr);
+    graph.apply_bidirectional_links(&mut lcr);
     graph
   }
 }
-- 
2.43.0


From cc82ac0574e17ef555a904a44a8210d0722f53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:05 +0000
Subject: [PATCH 05/22] fix: keep a bidirectional link which another link still
 pairs with

If two links of a node pair with the same opposite link, removing one of them
removed the opposite link of the other.
---
 src/typed_graph.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 9b20dfb..ea23e0c 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -665,6 +665,12 @@ where
       let bds = self.nodes.get(x).unwrap().get_bidiretional_link_mirrors_of(l);
       let bds = self.nodes.get(y).unwrap().match_bd_link_group(bds);
       for link in bds {
+        // Another link from x to y may still be the opposite side of this link
+        let opposites = self.nodes.get(y).unwrap().get_bidiretional_link_mirrors_of(link);
+        let node = self.nodes.get(x).unwrap();
+        if node.match_bd_link_group(opposites).into_iter().any(|l| node.contains_link(l, y)) {
+          continue;
+        }
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
           lcr.change_node(y);
-- 
2.43.0


From 88f0fac864d44bc5c21f74c93daebdf4082a69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:05 +0000
Subject: [PATCH 06/22] fix: a bidirectional pair declared twice is not an
 ambiguous choice

---
 src/typed_graph/macro_traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/macro_traits.rs b/src/typed_graph/macro_traits.rs
index 3b526e7..977a23e 100644
--- a/src/typed_graph/macro_traits.rs
+++ b/src/typed_graph/macro_traits.rs
@@ -145,7 +145,10 @@ pub trait NodeEnum: Discriminated<Self::Discriminant> {
   /// Returns: Vec<link>, these types of links are the opposite side of the specified link
   /// Returns nothing if the link type does not match the node type
   fn get_bidiretional_link_mirrors_of(&self, link: Self::LinkMirrorEnum) -> Vec<Self::LinkMirrorEnum> {
-    Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect()
+    // A pair may be declared more than once through overlapping groups
+    let mirrors: OrderSet<_> =
+      Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect();
+    mirrors.into_iter().collect()
   }
 
   /// Get the opposite links of the specified link or group
-- 
2.43.0


From 88ebc59c52f408e22f8eedb7fb7db35446965ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:43 +0000
Subject: [PATCH 07/22] fix: switch_context lost set links when old and new
 indices overlap

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index ea23e0c..c43a5fd 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -457,9 +457,15 @@ where
       id_map.insert(id, new_idx);
     }
 
+    // Old and new indices may overlap, so clear all the old links before adding the new ones
+    for id in id_map.keys() {
+      for (y, s) in &self.back_links[id] {
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, NodeIndex::empty());
+      }
+    }
     for (id, new_id) in &id_map {
       for (y, s) in &self.back_links[id] {
-        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, *new_id);
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *new_id, *new_id);
       }
     }
 
-- 
2.43.0


From 322aa0601b028f387a6fb8eed88f65e4081dd017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 08/22] fix: move a node to its new container when its type is
 changed

mutate and update may change the variant, but the node stayed in the container
of the old type, so iter_type and iter_nodes! found it under the wrong type.
---
 src/cate_arena.rs              | 17 ++++++++++++++---
 src/typed_graph.rs             |  2 +-
 src/typed_graph/transaction.rs |  2 +-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cate_arena.rs b/src/cate_arena.rs
index 6903018..0279287 100644
--- a/src/cate_arena.rs
+++ b/src/cate_arena.rs
@@ -99,9 +99,20 @@ pub trait CateArena: 'static {
   where
     F: FnOnce(Self::V) -> Self::V,
   {
-    let d = self.dispatch(i).expect(&format!("Update a non-existing node {:?}", i));
-    let x = self.get_container_mut(d).swap_remove(&i.0).expect(&format!("Update a non-existing node {:?}", i));
-    self.get_container_mut(d).insert(i.0, f(x));
+    let x = self.remove(i).expect(&format!("Update a non-existing node {:?}", i));
+    self.fill_back_untyped(i, f(x));
+  }
+  fn modify_with<F>(&mut self, i: NodeIndex, f: F)
+  where
+    F: FnOnce(&mut Self::V),
+  {
+    let x = self.get_mut(i).expect(&format!("Modify a non-existing node {:?}", i));
+    let d = Discriminated::discriminant(x);
+    f(x);
+    if Discriminated::discriminant(x) != d {
+      // The node now belongs to the container of another type
+      self.update_with(i, |x| x);
+    }
   }
 
   // fn iter_cate<'a, T: 'a>(&'a self) -> IterCate<'a, Self::K, Self::V, T>
diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index c43a5fd..9b1bfdc 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -577,7 +577,7 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
-    f(self.nodes.get_mut(x).unwrap());
+    self.nodes.modify_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index dcaaaca..52b7082 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -276,7 +276,7 @@ where
     F: FnOnce(&mut NodeT) + 'a,
   {
     if self.inc_nodes.contains(node) {
-      func(self.inc_nodes.get_mut(node).unwrap());
+      self.inc_nodes.modify_with(node, func);
     } else {
       self.mut_nodes.push((node, Box::new(func)));
     }  }
-- 
2.43.0


From c9577d8b55ce0c967003b0c8cc21966ae129e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 09/22] fix: allow mutate and update to link to an index
 without back links

Inserting a node with such a link was accepted, but changing a node to have it
panicked at commit.
---
 src/typed_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 9b1bfdc..f653bf5 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -580,7 +580,7 @@ where
     self.nodes.modify_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.add_back_link(x, y, s);
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
@@ -598,7 +598,7 @@ where
     self.nodes.update_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.add_back_link(x, y, s);
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
-- 
2.43.0


From 877bb5edd21789919a00dc8b1e96322579aa03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 10/22] fix: skip empty indices inside set links and in
 get_links_by_group

As already done for direct links and for Vec in 0.4.2.
---
 ttgraph_macros/src/group.rs      | 4 ++--
 ttgraph_macros/src/typed_node.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index df0ad7b..a98e53e 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -52,8 +52,8 @@ pub(crate) fn make_get_links_by_group(links: &[LinkType], groups: &[Vec<Ident>])
         LinkType::Direct(ident, _) => {
           quote! {if !self.#ident.is_empty() {result.push(self.#ident);}}
         },
-        LinkType::Set(ident, _) => quote! {result.extend(self.#ident.clone());},
-        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.clone());},
+        LinkType::Set(ident, _) => quote! {result.extend(self.#ident.iter().filter(|x| !x.is_empty()).map(|x| *x));},
+        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.iter().filter(|x| !x.is_empty()).map(|x| *x));},
         LinkType::Empty => quote! {},
       });
     }
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 3311457..7e720b4 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -170,7 +170,7 @@ pub(crate) fn make_typed_node(
         }
       }),
       LinkType::Set(ident, camel) => add_source_ops.push(quote! {
-        for i in self.#ident.iter() {
+        for i in self.#ident.iter().filter(|x| !x.is_empty()) {
           sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
         }
       }),
@@ -193,7 +193,7 @@ pub(crate) fn make_typed_node(
         Self::LinkMirror::#camel => if self.#ident.is_empty() {Box::new([].into_iter())} else {Box::new([self.#ident].into_iter())},
       },
       LinkType::Set(ident, camel) => quote! {
-        Self::LinkMirror::#camel => Box::new(self.#ident.iter().map(|x|*x)),
+        Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
       },
       LinkType::Vec(ident, camel) => quote! {
         Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
-- 
2.43.0


From 3b864a5e247e780189ef331717a1e4844aa8988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:49 +0000
Subject: [PATCH 11/22] fix: clear the links to a node created and removed in
 the same transaction

New nodes kept a dangling link to it, and committing a change which links an
existing node to it, or a redirection of it, panicked.
---
 src/typed_graph.rs             | 13 ++++++++++---
 src/typed_graph/transaction.rs |  5 +++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index f653bf5..57294e4 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -537,6 +537,9 @@ where
     for n in &t.dec_nodes {
       self.remove_node(*n, &mut lcr);
     }
+    for n in &t.cancel_nodes {
+      self.remove_links_to(*n, &mut lcr);
+    }
 
     self.apply_bidirectional_links(&mut lcr);
     lcr
@@ -560,7 +563,11 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
     self.remove_back_links(x, &n);
-    for (y, s) in self.back_links.swap_remove(&x).unwrap() {
+    self.remove_links_to(x, lcr);
+  }
+
+  fn remove_links_to(&mut self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (y, s) in self.back_links.swap_remove(&x).unwrap_or_default() {
       self.nodes.get_mut(y).unwrap().modify_link(s, x, NodeIndex::empty());
       lcr.change_node(y);
       lcr.remove_link(y, x, NodeT::to_link_mirror_enum(s));
@@ -604,8 +611,8 @@ where
   }
 
   fn redirect_links(&mut self, old_node: NodeIndex, new_node: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
-    let old_link = self.back_links.swap_remove(&old_node).unwrap();
-    self.back_links.insert(old_node, OrderSet::new());
+    // There may be no link to a node which is created and removed in the same transaction
+    let old_link = self.back_links.get_mut(&old_node).map(std::mem::take).unwrap_or_default();
 
     let new_link = self.back_links.entry(new_node).or_default();
     for (y, s) in old_link {
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 52b7082..7fcca26 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -18,6 +18,8 @@ where
   alloc_nodes: OrderSet<NodeIndex>,
   inc_nodes: Arena,
   dec_nodes: OrderSet<NodeIndex>,
+  /// Nodes created and removed in this transaction
+  cancel_nodes: OrderSet<NodeIndex>,
   mut_nodes: Vec<(NodeIndex, MutFunc<'a, NodeT>)>,
   update_nodes: Vec<(NodeIndex, UpdateFunc<'a, NodeT>)>,
   redirect_all_links_vec: Vec<(NodeIndex, NodeIndex)>,
@@ -62,6 +64,7 @@ where
       alloc_nodes: OrderSet::new(),
       inc_nodes: Arena::new(node_dist),
       dec_nodes: OrderSet::new(),
+      cancel_nodes: OrderSet::new(),
       mut_nodes: Vec::new(),
       update_nodes: Vec::new(),
       redirect_all_links_vec: Vec::new(),
@@ -227,6 +230,8 @@ where
   pub fn remove(&mut self, node: NodeIndex) {
     if self.inc_nodes.remove(node).is_none() && !self.alloc_nodes.swap_remove(&node) {
       self.dec_nodes.insert(node);
+    } else {
+      self.cancel_nodes.insert(node);
     }
   }
 
-- 
2.43.0


From 8c93c1ef4776829b98d25bb72c53866648c865c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:56 +0000
Subject: [PATCH 12/22] fix: reject fill_back_untyped on an index that is not
 waiting to be filled

Filling an occupied index with another type left two nodes under one index.
---
 src/typed_graph/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 7fcca26..90db108 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -160,8 +160,8 @@ where
 
   /// Fill back the data to a [`NodeIndex`] created by [`alloc_untyped`](Transaction::alloc_untyped)
   pub fn fill_back_untyped(&mut self, idx: NodeIndex, data: NodeT) {
+    assert!(self.alloc_nodes.swap_remove(&idx), "Fillback an occupied or non-existing index {:?}", idx);
     self.inc_nodes.fill_back_untyped(idx, data);
-    self.alloc_nodes.swap_remove(&idx);
   }
 
   /// Insert a new node into the graph, returns a [`NodeIndex`] pointing to the new node
-- 
2.43.0


From e10a68f83468d190550c44a618d4917523007079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:01 +0000
Subject: [PATCH 13/22] fix: Context::default() makes a context distinct from
 the others

All default contexts had the nil id, so mixing them up was not detected.
---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 57294e4..57d2863 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -895,7 +895,7 @@ pub type UpdateFunc<'a, T> = Box<dyn FnOnce(T) -> T + 'a>;
 
 /// Context for typed graph
 /// Transactions and graph must have the same context to ensure the correctness of NodeIndex
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Context {
   id: Uuid,
   node_dist: IdDistributer,
@@ -917,6 +917,12 @@ impl Context {
   }
 }
 
+impl Default for Context {
+  fn default() -> Self {
+    Self::new()
+  }
+}
+
 // /// A trait intended to be used in macros
 // pub trait SourceIterator<T: TypedNode + ?Sized>:
 //   Iterator<Item = (NodeIndex, Self::Source)>
-- 
2.43.0


From 7ee04937989e0569d3846393184400d8fa1cd99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:39 +0000
Subject: [PATCH 14/22] fix: data fields of tuple, array and other non-path
 types are missing

data_names and data_ref_by_name ignored them.
---
 ttgraph_macros/src/lib.rs        | 5 +++--
 ttgraph_macros/src/typed_node.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d769a0c..c3512bc 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -214,10 +214,11 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
       } else if vec_paths.contains(p) {
         links.push(LinkType::Vec(ident.clone(), upper_camel(&ident)));
         is_link = true;
-      } else {
-        data.push((ident.clone(), p.clone()));
       }
     }
+    if !is_link {
+      data.push((ident.clone(), f.ty.clone()));
+    }
     let mut have_group = false;
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 7e720b4..fa6e93b 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use syn::{Generics, Ident, TypePath};
+use syn::{Generics, Ident, Type};
 
 use std::collections::BTreeMap;
 
@@ -154,7 +154,7 @@ pub(crate) fn make_log_mirror(
 }
 
 pub(crate) fn make_typed_node(
-  links: &[LinkType], data: &[(Ident, TypePath)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
+  links: &[LinkType], data: &[(Ident, Type)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
   name: &Ident, generics: &Generics, gen_mod: &Ident, source_enum: &Ident, link_mirror: &Ident, log_mirror: &Ident,
 ) -> TokenStream {
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From 0e00a0dd29b168dccb9800eccc71e63a96fc0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:45 +0000
Subject: [PATCH 15/22] fix: a field with two group attributes shifted the
 groups of later fields

---
 ttgraph_macros/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index c3512bc..3912f8c 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -219,7 +219,7 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
     if !is_link {
       data.push((ident.clone(), f.ty.clone()));
     }
-    let mut have_group = false;
+    let mut field_groups = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
         let mut cur_group = Vec::new();
@@ -239,14 +239,13 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
           for g in &cur_group {
             group_map.entry(g.clone()).or_default().push(ident.clone());
           }
-          groups.push(cur_group);
+          field_groups.extend(cur_group);
         }
-        have_group = true;
       }
     }
 
-    if !have_group && is_link {
-      groups.push(Vec::new());
+    if is_link {
+      groups.push(field_groups);
     }
   }
   if links.is_empty() {
-- 
2.43.0


From 1e2a8ae3cda40f804973a99defecf3674e90445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 16/22] fix: recognize links written as Vec::<NodeIndex> or
 ::std::vec::Vec<NodeIndex>

The first form is documented as acceptable, but such fields were taken as data.
---
 ttgraph_macros/src/lib.rs   |  2 ++
 ttgraph_macros/src/utils.rs | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index 3912f8c..e76ce35 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -196,6 +196,7 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
     set_paths.push(parse_quote!(map::IndexSet<#dpath>));
     set_paths.push(parse_quote!(IndexSet<#dpath>));
 
+    vec_paths.push(parse_quote!(::std::vec::Vec<#dpath>));
     vec_paths.push(parse_quote!(std::vec::Vec<#dpath>));
     vec_paths.push(parse_quote!(vec::Vec<#dpath>));
     vec_paths.push(parse_quote!(Vec<#dpath>));
@@ -205,6 +206,7 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
     let ident = f.ident.clone().unwrap();
     let mut is_link = false;
     if let Type::Path(p) = &f.ty {
+      let p = &remove_turbofish(p);
       if direct_paths.contains(p) {
         links.push(LinkType::Direct(ident.clone(), upper_camel(&ident)));
         is_link = true;
diff --git a/ttgraph_macros/src/utils.rs b/ttgraph_macros/src/utils.rs
index 66d88ea..f074a4a 100644
--- a/ttgraph_macros/src/utils.rs
+++ b/ttgraph_macros/src/utils.rs
@@ -1,6 +1,6 @@
 use change_case::{pascal_case, self};
 use quote::{format_ident, quote, ToTokens};
-use syn::{Ident, Visibility};
+use syn::{Ident, PathArguments, TypePath, Visibility};
 use proc_macro2::TokenStream;
 
 pub(crate) fn upper_camel(ident: &Ident) -> Ident {
@@ -20,3 +20,14 @@ pub(crate) fn make_generated_mod(result: &mut TokenStream, generated: TokenStrea
   }.to_tokens(result);
   gen_ident
 }
+
+/// `Vec::<NodeIndex>` and `Vec<NodeIndex>` are the same type, convert the former to the latter
+pub(crate) fn remove_turbofish(ty: &TypePath) -> TypePath {
+  let mut ty = ty.clone();
+  for seg in &mut ty.path.segments {
+    if let PathArguments::AngleBracketed(args) = &mut seg.arguments {
+      args.colon2_token = None;
+    }
+  }
+  ty
+}
-- 
2.43.0


From f725598adc386b0eadc919ce3ca37a7d678da3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:30 +0000
Subject: [PATCH 17/22] fix: bidirectional maintenance removed a link added by
 the same transaction

The removed link's opposites included links which the transaction itself added,
so the added link vanished while its own opposite was still created.
---
 src/typed_graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 57d2863..dd1325a 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -668,7 +668,7 @@ where
 
   fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
     let removes = Vec::from_iter(lcr.removes());
-    let adds = Vec::from_iter(lcr.adds());
+    let adds = OrderSet::<_>::from_iter(lcr.adds());
 
     for (x, y, l) in removes {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
@@ -678,6 +678,10 @@ where
       let bds = self.nodes.get(x).unwrap().get_bidiretional_link_mirrors_of(l);
       let bds = self.nodes.get(y).unwrap().match_bd_link_group(bds);
       for link in bds {
+        // A link added by this transaction is not the one that paired with the removed link
+        if adds.contains(&(y, x, link)) {
+          continue;
+        }
         // Another link from x to y may still be the opposite side of this link
         let opposites = self.nodes.get(y).unwrap().get_bidiretional_link_mirrors_of(link);
         let node = self.nodes.get(x).unwrap();
-- 
2.43.0


From 74eda182862ec2251dee0b44dd66d11844dc9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:36 +0000
Subject: [PATCH 18/22] fix: reject link_type! annotations of an unknown
 variant instead of ignoring them

---
 ttgraph_macros/src/lib.rs        | 1 +
 ttgraph_macros/src/link_check.rs | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index e76ce35..9eff4f1 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -119,6 +119,7 @@ pub fn node_enum(macro_input: TokenStream) -> TokenStream {
   }
 
   check_bidirectional_links(&vars, &bidirectional_links, &groups);
+  check_type_annotations(&vars, &type_annotations, &groups);
   abort_if_dirty();
 
   let mut generated = proc_macro2::TokenStream::new();
diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index 8befbdb..a96b955 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -1,6 +1,7 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use proc_macro2::TokenStream;
+use proc_macro_error::emit_error;
 use quote::quote;
 use syn::parse::{Parse, ParseStream};
 use syn::{self, braced, token, Ident, Token, Type};
@@ -45,6 +46,14 @@ impl Parse for TypeAnnotationVec {
   }
 }
 
+pub(crate) fn check_type_annotations(vars: &[(Ident, Type)], annotations: &[TypeAnnotation], groups: &[NamedGroup]) {
+  for TypeAnnotation { var, .. } in annotations {
+    if !vars.iter().any(|(ident, _)| ident == var) && !groups.iter().any(|x| x.name == *var) {
+      emit_error!(var, "Unknown identifier, not a variant of the NodeEnum");
+    }
+  }
+}
+
 fn expand_group(annotations: Vec<TypeAnnotation>, group_map: &BTreeMap<Ident, Vec<Ident>>) -> Vec<TypeAnnotation> {
   let mut result = Vec::new();
   for TypeAnnotation{var, link ,var2} in annotations {
-- 
2.43.0


From 875441cb0c8abb1ce6ef13fb88a1608372ad40d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:55 +0000
Subject: [PATCH 19/22] fix: enforce every link_type! annotation of a link, not
 only one of them

---
 ttgraph_macros/src/link_check.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index a96b955..9619561 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -104,19 +104,20 @@ pub(crate) fn make_check_link_type(
         }
 
         link_arms.push(quote! {
-          <#ty as TypedNode>::LoGMirror::#link => match target {
-            #(#var2_arms)|* => Ok(()),
-            other => Err(ttgraph::LinkTypeError{
+          if let <#ty as TypedNode>::LoGMirror::#link = v { match target {
+            #(#var2_arms)|* => {},
+            other => return Err(ttgraph::LinkTypeError{
               link,
               expect: &[#(#expect),*],
               found: other,
             }),
-          },
+          } }
         })
       }
-      arms.push(quote! {Self::LoGMirrorEnum::#var(v) => match v{
+      // All annotations of a link must hold, there may be several
+      arms.push(quote! {Self::LoGMirrorEnum::#var(v) => {
         #(#link_arms)*
-        _ => Ok(()),
+        Ok(())
       },});
     } else {
       arms.push(quote! {Self::LoGMirrorEnum::#var(_) => Ok(()),});
-- 
2.43.0


From 280d875eaa0892cbaac2fa5b5e757b36831d1d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:47 +0000
Subject: [PATCH 20/22] fix: arena accepted filling back an index occupied by a
 node of another type

---
 ttgraph_macros/src/cate_arena.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttgraph_macros/src/cate_arena.rs b/ttgraph_macros/src/cate_arena.rs
index 54585d5..78260d6 100644
--- a/ttgraph_macros/src/cate_arena.rs
+++ b/ttgraph_macros/src/cate_arena.rs
@@ -354,11 +354,13 @@ pub(crate) fn make_cate_arena(
         NodeIndex(self._id_distributer.alloc())
       }
       fn fill_back_untyped(&mut self, i: NodeIndex, item: Self::V) {
-        let d = ttgraph::Discriminated::discriminant(&item);
-        self._dispatcher.insert(i, d);
-        if self.get_container_mut(d).insert(i.0, item).is_some() {
+        // It may be occupied by a node of another type
+        if self.contains(i) {
           panic!("Fillback an occupied index {:?}", i);
         }
+        let d = ttgraph::Discriminated::discriminant(&item);
+        self._dispatcher.insert(i, d);
+        self.get_container_mut(d).insert(i.0, item);
       }
       fn remove(&mut self, i: NodeIndex) -> Option<Self::V> {
         let d = self._dispatcher.swap_remove(&i);
-- 
2.43.0


From 3d356b370aa2d94dbe5cf5425a0d4d1a4bfee46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 21/22] fix: node types or links named like keywords in another
 case did not compile

---
 ttgraph_macros/src/cate_arena.rs |  8 ++++----
 ttgraph_macros/src/utils.rs      | 10 +++++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/ttgraph_macros/src/cate_arena.rs b/ttgraph_macros/src/cate_arena.rs
index 78260d6..08f4a81 100644
--- a/ttgraph_macros/src/cate_arena.rs
+++ b/ttgraph_macros/src/cate_arena.rs
@@ -51,7 +51,7 @@ pub(crate) fn make_cate_arena_iter(
 ) -> Ident {
   let iter_name = format_ident!("{}Iter", enumt);
 
-  let iterators = Vec::from_iter(vars.iter().map(|(ident, _)| snake_case(ident)));
+  let iterators = Vec::from_iter(vars.iter().map(|(ident, _)| container_name(ident)));
   let mut fields = Vec::new();
   for iter in iterators.iter() {
     fields.push(quote! {#iter: ttgraph::ordermap::map::Iter<'a, usize, #enumt>});
@@ -112,7 +112,7 @@ pub(crate) fn make_cate_arena_iter_mut(
 ) -> Ident {
   let iter_name = format_ident!("{}IterMut", enumt);
 
-  let iterators = Vec::from_iter(vars.iter().map(|(ident, _)| snake_case(ident)));
+  let iterators = Vec::from_iter(vars.iter().map(|(ident, _)| container_name(ident)));
   let mut fields = Vec::new();
   for iter in iterators.iter() {
     fields.push(quote! {#iter: ttgraph::ordermap::map::IterMut<'a, usize, #enumt>});
@@ -172,7 +172,7 @@ pub(crate) fn make_cate_arena_intoiter(
 ) -> Ident {
   let iter_name = format_ident!("{}IntoIter", enumt);
 
-  let iterators = Vec::from_iter(vars.iter().map(|(ident, _)| snake_case(ident)));
+  let iterators = Vec::from_iter(vars.iter().map(|(ident, _)| container_name(ident)));
   let mut fields = Vec::new();
   for iter in iterators.iter() {
     fields.push(quote! {#iter: ttgraph::ordermap::map::IntoIter<usize, #enumt>});
@@ -232,7 +232,7 @@ pub(crate) fn make_cate_arena(
 ) -> Ident {
   let arena_name = format_ident!("{}Arena", enumt);
 
-  let containers = Vec::from_iter(vars.iter().map(|(ident, _)| snake_case(ident)));
+  let containers = Vec::from_iter(vars.iter().map(|(ident, _)| container_name(ident)));
 
   let iter = make_cate_arena_iter(result, vars, enumt, discriminant, vis);
   let itermut = make_cate_arena_iter_mut(result, vars, enumt, discriminant, vis);
diff --git a/ttgraph_macros/src/utils.rs b/ttgraph_macros/src/utils.rs
index f074a4a..f6c24d7 100644
--- a/ttgraph_macros/src/utils.rs
+++ b/ttgraph_macros/src/utils.rs
@@ -4,11 +4,15 @@ use syn::{Ident, PathArguments, TypePath, Visibility};
 use proc_macro2::TokenStream;
 
 pub(crate) fn upper_camel(ident: &Ident) -> Ident {
-  format_ident!("{}", pascal_case(&ident.to_string()), span = ident.span())
+  let name = pascal_case(&ident.to_string());
+  // The only keyword in camel case
+  let name = if name == "Self" { "Self_" } else { &name };
+  format_ident!("{}", name, span = ident.span())
 }
 
-pub(crate) fn snake_case(ident: &Ident) -> Ident {
-  format_ident!("{}", change_case::snake_case(&ident.to_string()), span = ident.span())
+/// The name of the container of a node type, prefixed because the name of the type itself may be a keyword, like `If`
+pub(crate) fn container_name(ident: &Ident) -> Ident {
+  format_ident!("nodes_{}", change_case::snake_case(&ident.to_string()), span = ident.span())
 }
 
 pub(crate) fn make_generated_mod(result: &mut TokenStream, generated: TokenStream, ident: &Ident, vis: &Visibility) -> Ident {
-- 
2.43.0


From 25b12a25bc1e08e1a65030278b2e9595f37f8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:27 +0000
Subject: [PATCH 22/22] fix: node types written as a path from crate, self or
 another crate did not compile

---
 ttgraph_macros/src/node_enum.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/ttgraph_macros/src/node_enum.rs b/ttgraph_macros/src/node_enum.rs
index e557444..919fd34 100644
--- a/ttgraph_macros/src/node_enum.rs
+++ b/ttgraph_macros/src/node_enum.rs
@@ -1,11 +1,26 @@
 use proc_macro2::{self, TokenStream};
 use quote::{format_ident, quote, ToTokens};
-use syn::{Generics, Ident, Type};
+use syn::{Generics, Ident, Type, TypePath};
 
 use crate::bidirectional::*;
 use crate::group::*;
 use crate::link_check::*;
 
+/// The type of a variant, as it is written inside of the generated module
+fn from_generated_mod(ty: &Type) -> TokenStream {
+  if let Type::Path(TypePath { qself: None, path }) = ty {
+    let first = &path.segments[0].ident;
+    if path.leading_colon.is_some() || first == "crate" {
+      return quote! {#ty};
+    }
+    if first == "self" {
+      let rest = path.segments.iter().skip(1);
+      return quote! {self::super #(::#rest)*};
+    }
+  }
+  quote! {self::super::#ty}
+}
+
 pub(crate) fn make_source_enum(
   result: &mut TokenStream, generics: &Generics, vars: &Vec<(Ident, Type)>, enumt: &Ident,
 ) -> Ident {
@@ -13,7 +28,8 @@ pub(crate) fn make_source_enum(
 
   let mut v = Vec::new();
   for (ident, ty) in vars {
-    v.push(quote! {#ident(<self::super::#ty as ttgraph::TypedNode>::Source),});
+    let ty = from_generated_mod(ty);
+    v.push(quote! {#ident(<#ty as ttgraph::TypedNode>::Source),});
   }
 
   quote! {
@@ -33,7 +49,8 @@ pub(crate) fn make_link_mirror_enum(
   let link_mirror_enum = format_ident!("{}LinkMirrorEnum", enumt);
   let mut v = Vec::new();
   for (ident, ty) in vars {
-    v.push(quote! {#ident(<self::super::#ty as ttgraph::TypedNode>::LinkMirror),});
+    let ty = from_generated_mod(ty);
+    v.push(quote! {#ident(<#ty as ttgraph::TypedNode>::LinkMirror),});
   }
 
   quote! {
@@ -53,7 +70,8 @@ pub(crate) fn make_log_mirror_enum(
   let log_mirror_enum = format_ident!("{}LoGMirrorEnum", enumt);
   let mut v = Vec::new();
   for (ident, ty) in vars {
-    v.push(quote! {#ident(<self::super::#ty as ttgraph::TypedNode>::LoGMirror),});
+    let ty = from_generated_mod(ty);
+    v.push(quote! {#ident(<#ty as ttgraph::TypedNode>::LoGMirror),});
   }
 
   quote! {
-- 
2.43.0

