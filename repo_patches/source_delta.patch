From cb09fe730e213347e5fbabac6c48274e7e86f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 01/27] fix: renumber terminals and spans after the removed
 terminal is gone

---
 lumberjack/src/tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 045be65..424128a 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -693,10 +693,11 @@ impl Tree {
         if self.siblings(terminal).count() == 0 {
             return Err(format_err!("Last terminal of a branch."));
         }
+        let terminal = self.graph.remove_node(terminal).unwrap();
+        self.n_terminals -= 1;
         self.compact_terminal_spans()?;
         self.reset_nt_spans();
-        self.n_terminals -= 1;
-        Ok(self.graph.remove_node(terminal).unwrap())
+        Ok(terminal)
     }
 
     /// Reset terminal spans to increasing by 1 at each step.
-- 
2.43.0


From a24e30bc1dfa15537b0be83b1648f5a50f4d226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 02/27] fix: count discontinuous nodes inserted above or below
 a discontinuous node

---
 lumberjack/src/tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 424128a..256259b 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -250,6 +250,9 @@ impl Tree {
         S: Into<String>,
     {
         let span = self[child].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(node);
         if let Some((parent, old_edge_idx)) = self.parent(child) {
@@ -288,6 +291,9 @@ impl Tree {
         // collect children before attaching new node
         let children = self.children(node).collect::<Vec<_>>();
         let span = self[node].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let new_node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(new_node);
         self.graph
-- 
2.43.0


From f01c44a380d4782a1bcfa2a6e6ec747f6d60a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 03/27] fix: refuse to reattach a node below one of its own
 descendants

---
 lumberjack/src/tree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 256259b..a349627 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -342,6 +342,7 @@ impl Tree {
     /// Returns `Err` if:
     ///   * `edge` is the last outgoing edge of a node.
     ///   * `new_parent` is a `Terminal` node.
+    ///   * `edge` is a primary edge and `new_parent` is dominated by the node to be reattached.
     ///
     /// Returns `Ok(old_edge)` otherwise.
     ///
@@ -602,6 +603,13 @@ impl Tree {
         edge: EdgeIndex,
     ) -> Result<(EdgeIndex, Edge), Error> {
         let (parent, child) = self.graph.edge_endpoints(edge).unwrap();
+        // attaching a node below itself would detach the subtree from the root
+        let mut climber = Climber::new(new_parent, self);
+        while let Some(node) = climber.next(self) {
+            if node == child {
+                return Err(format_err!("New parent is dominated by the node."));
+            }
+        }
         // ensure we're not removing the last child of a node
         if self[new_parent].is_terminal() {
             return Err(format_err!("Terminal node as new parent."));
-- 
2.43.0


From cd12c5deaf73b6e4d4f10ee9968656ba7ac8256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 04/27] fix: update the spans of all former ancestors when
 reattaching a node

---
 lumberjack/src/tree.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index a349627..b022d2b 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -616,25 +616,26 @@ impl Tree {
         } else if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
-        let mut climber = Climber::new(parent, self);
-        let mut path = vec![parent];
-        // climb tree to check if the old parent is dominated by the new parent
+        // nodes dominating the reattachment point still cover the child after the reattachment
+        let mut new_ancestors = vec![new_parent];
+        let mut climber = Climber::new(new_parent, self);
         while let Some(node) = climber.next(self) {
-            path.push(node);
-            // if new parent is higher in the tree, we need to remove the indices from the old
-            // parent's span
-            if new_parent == node {
-                let coverage = self[child].span().into_iter().collect::<Vec<_>>();
-                for node in path {
-                    let before = self[node].continuity();
-                    let after = self[node]
-                        .nonterminal_mut()
-                        .unwrap()
-                        .remove_indices(coverage.iter().cloned());
-                    self.projectivity_change(before, after);
-                }
+            new_ancestors.push(node);
+        }
+        // all nodes between the old parent and the lowest common ancestor of old and new parent
+        // lose the child's indices
+        let coverage = self[child].span().into_iter().collect::<Vec<_>>();
+        let mut climber = Climber::new(child, self);
+        while let Some(node) = climber.next(self) {
+            if new_ancestors.contains(&node) {
                 break;
             }
+            let before = self[node].continuity();
+            let after = self[node]
+                .nonterminal_mut()
+                .unwrap()
+                .remove_indices(coverage.iter().cloned());
+            self.projectivity_change(before, after);
         }
         let edge = self.graph.remove_edge(edge).unwrap();
         let edge_idx = self
-- 
2.43.0


From 1ed1f4b75d4ffe5759fb2213c24fb7c5e29680f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 05/27] fix: refuse a terminal as new parent of a secondary
 edge

---
 lumberjack/src/tree.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index b022d2b..a890110 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -369,6 +369,9 @@ impl Tree {
         if child == new_parent {
             return Err(format_err!("New parent is node itself."));
         }
+        if self[new_parent].is_terminal() {
+            return Err(format_err!("Terminal node as new parent."));
+        }
 
         match self[edge] {
             Edge::Primary(_) => self.reattach_primary(new_parent, edge),
@@ -611,9 +614,7 @@ impl Tree {
             }
         }
         // ensure we're not removing the last child of a node
-        if self[new_parent].is_terminal() {
-            return Err(format_err!("Terminal node as new parent."));
-        } else if self.siblings(child).count() == 0 && parent != new_parent {
+        if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
         // nodes dominating the reattachment point still cover the child after the reattachment
-- 
2.43.0


From b919ba66ed497d3658f428b28c4c59daa0a9bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 06/27] fix: compare only the parents to decide whether nodes
 are siblings

---
 lumberjack/src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index a890110..3561228 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -404,7 +404,7 @@ impl Tree {
     /// Returns whether two nodes are immediately dominated by the same node.
     pub fn are_siblings(&self, node_1: NodeIndex, node_2: NodeIndex) -> bool {
         match (self.parent(node_1), self.parent(node_2)) {
-            (Some(parent_1), Some(parent_2)) => parent_1 == parent_2,
+            (Some((parent_1, _)), Some((parent_2, _))) => parent_1 == parent_2,
             _ => false,
         }
     }
-- 
2.43.0


From 97658b9b2973fad3f1acf4002a6f4d08036afb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 07/27] fix: check the arguments of move_terminal before
 returning early

---
 lumberjack/src/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 3561228..10d021b 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -147,11 +147,11 @@ impl Tree {
     ///
     /// Panics if index is out of bounds or the index of a NonTerminal is passed as argument.
     pub fn move_terminal(&mut self, terminal: NodeIndex, index: usize) {
+        assert!(self[terminal].is_terminal(), "Can't move NonTerminals.");
+        assert!(index < self.n_terminals, "Index out of bounds.");
         if self[terminal].span().start == index {
             return;
         }
-        assert!(self[terminal].is_terminal(), "Can't move NonTerminals.");
-        assert!(index < self.n_terminals, "Index out of bounds.");
         let old_pos = self[terminal].span().start;
         let terminals = self
             .terminals()
-- 
2.43.0


From 33f2716d5f0fe2b6c0b37be3721e6a94c97dab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 08/27] fix: return None when removing a secondary edge that
 doesn't exist

---
 lumberjack/src/tree.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 10d021b..006867a 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -134,10 +134,9 @@ impl Tree {
     ///
     /// Returns `None` if the edge is not present in the graph.
     pub fn remove_secondary_edge(&mut self, edge: EdgeIndex) -> Option<Edge> {
-        if !self[edge].is_primary() {
-            self.graph.remove_edge(edge)
-        } else {
-            None
+        match self.graph.edge_weight(edge) {
+            Some(weight) if !weight.is_primary() => self.graph.remove_edge(edge),
+            _ => None,
         }
     }
 
-- 
2.43.0


From 54a7b09ad5b501fcd83c867c1659bab85bd55f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 09/27] fix: compare the forms of terminals in equality

---
 lumberjack/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/node.rs b/lumberjack/src/node.rs
index 2f02449..f3db325 100644
--- a/lumberjack/src/node.rs
+++ b/lumberjack/src/node.rs
@@ -319,7 +319,11 @@ pub struct Terminal {
 
 impl PartialEq<Terminal> for Terminal {
     fn eq(&self, other: &Terminal) -> bool {
-        if self.pos != other.pos || self.span != other.span || self.lemma != other.lemma {
+        if self.form != other.form
+            || self.pos != other.pos
+            || self.span != other.span
+            || self.lemma != other.lemma
+        {
             return false;
         }
         match (&self.features, &other.features) {
-- 
2.43.0


From a060555e61ea0d9ec42bf2febaa2e2f0957b2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 10/27] fix: compare the root nodes in tree equality

---
 lumberjack/src/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 006867a..a86dd87 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -824,7 +824,8 @@ impl PartialEq for Tree {
             return false;
         };
 
-        subtree_eq(self.root(), self, other.root(), other)
+        self[self.root()] == other[other.root()]
+            && subtree_eq(self.root(), self, other.root(), other)
     }
 }
 
-- 
2.43.0


From 617a5c947f2d9c312f39d508852a0315fb571940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 11/27] fix: annotate POS tags in linear order of the sentence

---
 lumberjack/src/tree_modification.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index c1fa251..355deab 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -22,7 +22,9 @@ impl AnnotatePOS for Tree {
     where
         S: Into<String>,
     {
-        let terminals = self.terminals().collect::<Vec<_>>();
+        let mut terminals = self.terminals().collect::<Vec<_>>();
+        // tags are given in linear order of the sentence
+        self.sort_indices(&mut terminals);
         let mut pos_iter = pos_iter.into_iter();
         for terminal in terminals {
             if let Some(pos) = pos_iter.next() {
-- 
2.43.0


From 74bbe26cef280d181509a4e9f4c4af5a79ba0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 12/27] fix: insert only one intermediate node above a terminal

---
 lumberjack/src/tree_modification.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 355deab..814cc1b 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -179,6 +179,8 @@ impl TreeOps for Tree {
                 children.sort_by(|c1, c2| self[c1.0].span().cmp(self[c2.0].span()));
                 let mut children = children.into_iter();
                 let (terminal, _) = children.next().unwrap();
+                // the leftmost child isn't necessarily the terminal with the lowest node index
+                visit_map.visit(terminal);
                 let mut insert = self.insert_unary_above(terminal, label.clone());
 
                 let mut prev_idx = self[terminal].span().start;
-- 
2.43.0


From dc5c71343ecb4671aa0ac584fe1bceac53e588af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 13/27] fix: stop at the root and the attachment point when
 reattaching terminals

---
 lumberjack/src/tree_modification.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 814cc1b..03c00a8 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -227,14 +227,18 @@ impl TreeOps for Tree {
             if match_fn(&self, terminal) {
                 let mut climber = Climber::new(terminal, self);
                 while self.siblings(terminal).count() == 0 {
-                    if let Some(parent) = climber.next(self) {
-                        if parent != self.root() && parent != attachment {
+                    match climber.next(self) {
+                        Some(parent) if parent != self.root() && parent != attachment => {
                             self.remove_node(parent).unwrap();
                         }
+                        // neither the root nor the attachment point get removed
+                        _ => break,
                     }
                 }
-                let (_, edge) = self.parent(terminal).unwrap();
-                self.reattach_node(attachment, edge).unwrap();
+                // there is nothing to reattach if the terminal is the only node in the tree
+                if let Some((_, edge)) = self.parent(terminal) {
+                    self.reattach_node(attachment, edge).unwrap();
+                }
             }
         }
         self.reset_nt_spans();
-- 
2.43.0


From a4f0d0f18b6cdd6afc1046ada10878b6800e1cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 14/27] fix: split PTB labels without keeping the delimiter in
 the annotation

---
 lumberjack/src/io/ptb.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 88a11e6..8c2f237 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -239,10 +239,13 @@ impl PTBFormat {
             // split label and edge label
             match self {
                 PTBFormat::PTB => {
-                    if let Some(idx) = label.find('-') {
-                        Ok((&label[..idx], None, Some(&label[idx..])))
-                    } else {
-                        Ok((label, None, None))
+                    match label.find('-') {
+                        // the delimiter is neither part of the label nor of the annotation, labels
+                        // starting with the delimiter, e.g. "-NONE-", aren't split.
+                        Some(idx) if idx > 0 => {
+                            Ok((&label[..idx], None, Some(&label[idx + 1..])))
+                        }
+                        _ => Ok((label, None, None)),
                     }
                 }
                 PTBFormat::TueBa => {
-- 
2.43.0


From 57589d507066e1e27a00a7b09ce8876a1fea4e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 15/27] fix: return an error for unbalanced parentheses in
 multi-line trees

---
 lumberjack/src/io/ptb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 8c2f237..a166d44 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -315,6 +315,9 @@ where
                 }
                 let (line_open, line_closed) = count_pars(&line);
                 open += line_open;
+                if line_closed > open {
+                    return Some(Err(format_err!("Unbalanced parentheses: {}", line)));
+                }
                 open -= line_closed;
                 buffer.push_str(line.as_str());;
                 if open == 0 {
-- 
2.43.0


From de4f5a0c71f6405ca9f5cf0da8c96ce923a53ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 16/27] fix: keep tokens on consecutive lines of a multi-line
 tree apart

---
 lumberjack/src/io/ptb.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index a166d44..f888a68 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -319,6 +319,10 @@ where
                     return Some(Err(format_err!("Unbalanced parentheses: {}", line)));
                 }
                 open -= line_closed;
+                // line breaks delimit tokens
+                if !buffer.is_empty() {
+                    buffer.push(' ');
+                }
                 buffer.push_str(line.as_str());;
                 if open == 0 {
                     return Some(self.format.string_to_tree(&buffer));
-- 
2.43.0


From 57b6b69c9be2748155f578d3235f82599d356002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 17/27] fix: return an error for an incomplete multi-line tree
 at the end of input

---
 lumberjack/src/io/ptb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index f888a68..0cff2bb 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -328,6 +328,9 @@ where
                     return Some(self.format.string_to_tree(&buffer));
                 }
             }
+            if !buffer.is_empty() {
+                return Some(Err(format_err!("Incomplete tree at end of input: {}", buffer)));
+            }
         }
         None
     }
-- 
2.43.0


From f3d32a803f6ab185dd1a684ada1698aaf2272132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 18/27] fix: return an error for a NEGRA sentence without #EOS
 at the end of input

---
 lumberjack/src/io/negra.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index f579433..61e2de3 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -71,6 +71,12 @@ where
                 }
             }
         }
+        if let Some(builder) = cur {
+            return Some(Err(format_err!(
+                "Sentence {} is missing #EOS",
+                builder.sentence_id
+            )));
+        }
         None
     }
 }
-- 
2.43.0


From 89933704e9a3647735aafb6ec0588700d42deb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 19/27] fix: return an error for NEGRA sentences without
 terminals

---
 lumberjack/src/io/negra.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 61e2de3..46af6f1 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -150,6 +150,9 @@ impl Builder {
                 eos_id
             ));
         }
+        if self.n_terminals == 0 {
+            return Err(format_err!("Tree without Terminal nodes."));
+        }
         for (source, label, target) in self.sec_edges {
             self.graph.add_edge(
                 *self.nt_indices.get(&source).unwrap(),
-- 
2.43.0


From 1ebacf40ae7f9f7ed7a9389b4ee09bd3fd34a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 20/27] fix: return an error for secondary edges with unknown
 parent in NEGRA

---
 lumberjack/src/io/negra.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 46af6f1..a528b73 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -154,11 +154,12 @@ impl Builder {
             return Err(format_err!("Tree without Terminal nodes."));
         }
         for (source, label, target) in self.sec_edges {
-            self.graph.add_edge(
-                *self.nt_indices.get(&source).unwrap(),
-                target,
-                Edge::Secondary(Some(label)),
-            );
+            let source = *self
+                .nt_indices
+                .get(&source)
+                .ok_or_else(|| format_err!("Unknown secondary parent: {}", source))?;
+            self.graph
+                .add_edge(source, target, Edge::Secondary(Some(label)));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
-- 
2.43.0


From 9c96706f6835c564c3746c9aa3fe611da9cce38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 21/27] fix: return an error for NEGRA sentences that don't
 form a tree

---
 lumberjack/src/io/negra.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index a528b73..8657cc1 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -3,7 +3,7 @@ use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
 use petgraph::prelude::{Direction, EdgeRef, NodeIndex, StableGraph};
-use petgraph::visit::{VisitMap, Visitable};
+use petgraph::visit::{Dfs, VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
 use crate::{Edge, Node, NonTerminal, Span, Terminal, Tree, WriteTree};
@@ -153,6 +153,20 @@ impl Builder {
         if self.n_terminals == 0 {
             return Err(format_err!("Tree without Terminal nodes."));
         }
+        let root = *self.nt_indices.get(&0).unwrap();
+        if self.processed_nts != self.nt_indices.len() {
+            return Err(format_err!("Did not process all nonterminals."));
+        }
+        // all nodes have at most one parent here, hence all nodes have to be reachable from the
+        // root unless there is a cycle.
+        let mut dfs = Dfs::new(&self.graph, root);
+        let mut n_reachable = 0;
+        while dfs.next(&self.graph).is_some() {
+            n_reachable += 1;
+        }
+        if n_reachable != self.graph.node_count() {
+            return Err(format_err!("Not all nodes are dominated by the root."));
+        }
         for (source, label, target) in self.sec_edges {
             let source = *self
                 .nt_indices
@@ -162,10 +176,6 @@ impl Builder {
                 .add_edge(source, target, Edge::Secondary(Some(label)));
         }
 
-        let root = *self.nt_indices.get(&0).unwrap();
-        if self.processed_nts != self.nt_indices.len() {
-            return Err(format_err!("Did not process all nonterminals."));
-        }
         self.graph[root].set_span(Span::new(0, self.n_terminals))?;
         Ok(Tree::new_from_parts(
             self.graph,
@@ -205,6 +215,16 @@ impl Builder {
             .nt_indices
             .get(&self_id)
             .ok_or_else(|| format_err!("Nonterminal without children."))?;
+        // each nonterminal has exactly one line and the root has none
+        if self_id == 0
+            || self
+                .graph
+                .neighbors_directed(self_idx, Direction::Incoming)
+                .next()
+                .is_some()
+        {
+            return Err(format_err!("Unexpected line for nonterminal: {}", self_id));
+        }
         read_required_string_field(parts.next())?;
 
         let mut label_parts = read_required_string_field(parts.next())?.split('=');
-- 
2.43.0


From ae4e5521de9e1edd986a2ae08d87f8beee3fc1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 22/27] fix: determine spans independent of the order of
 nonterminals in NEGRA

---
 lumberjack/src/io/negra.rs | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 8657cc1..8a6cf99 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -2,11 +2,11 @@ use std::collections::{hash_map::Entry, HashMap, VecDeque};
 use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
-use petgraph::prelude::{Direction, EdgeRef, NodeIndex, StableGraph};
+use petgraph::prelude::{Direction, NodeIndex, StableGraph};
 use petgraph::visit::{Dfs, VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
-use crate::{Edge, Node, NonTerminal, Span, Terminal, Tree, WriteTree};
+use crate::{Edge, Node, NonTerminal, Terminal, Tree, WriteTree};
 
 /// Iterator over constituency trees in a Negra export file.
 ///
@@ -88,7 +88,6 @@ struct Builder {
     n_terminals: usize,
     sentence_id: String,
     finished_terminals: bool,
-    num_non_projective: usize,
     processed_nts: usize,
     sec_edges: Vec<(usize, String, NodeIndex)>,
 }
@@ -124,7 +123,6 @@ impl Builder {
             sentence_id: bos_id.to_string(),
             finished_terminals: false,
             n_terminals: 0,
-            num_non_projective: 0,
             processed_nts: 1,
             sec_edges: Vec::new(),
         })
@@ -176,13 +174,11 @@ impl Builder {
                 .add_edge(source, target, Edge::Secondary(Some(label)));
         }
 
-        self.graph[root].set_span(Span::new(0, self.n_terminals))?;
-        Ok(Tree::new_from_parts(
-            self.graph,
-            self.n_terminals,
-            root,
-            self.num_non_projective,
-        ))
+        // the lines for nonterminals can be in any order, spans can only be determined after all
+        // children are known.
+        let mut tree = Tree::new_from_parts(self.graph, self.n_terminals, root, 0);
+        tree.reset_nt_spans();
+        Ok(tree)
     }
 
     /// Add the given line to the builder.
@@ -238,20 +234,7 @@ impl Builder {
         }
         read_required_string_field(parts.next())?;
 
-        self.process_edges(self_idx, parts)?;
-
-        let coverage = self
-            .graph
-            .edges_directed(self_idx, Direction::Outgoing)
-            .filter(|e| e.weight().is_primary())
-            .flat_map(|e| self.graph[e.target()].span().into_iter())
-            .collect();
-        let span = Span::from_vec(coverage)?;
-        if span.skips().is_some() {
-            self.num_non_projective += 1;
-        }
-        self.graph[self_idx].set_span(span)?;
-        Ok(())
+        self.process_edges(self_idx, parts)
     }
 
     /// Process line containing a NonTerminal.
-- 
2.43.0


From 7813d03bc8b43a12e1a3c08421d7d14eebf7a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 23/27] fix: write trees consisting of a single terminal to
 NEGRA

---
 lumberjack/src/io/negra.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 8a6cf99..afcd4f5 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -403,8 +403,12 @@ impl<W> NegraWriter<W> {
 
     /// Get the Negra String representation for edge and parent ID.
     fn get_parent_edge(idx: NodeIndex, tree: &Tree, id_map: &HashMap<NodeIndex, String>) -> String {
-        let (parent, edge) = tree.parent(idx).unwrap();
-        let mut edge_rep = tree[edge].label().unwrap_or_else(|| "--").to_string();
+        // a terminal that is the root of the tree gets attached to the virtual root
+        let (parent, label) = match tree.parent(idx) {
+            Some((parent, edge)) => (parent, tree[edge].label()),
+            None => (tree.root(), None),
+        };
+        let mut edge_rep = label.unwrap_or_else(|| "--").to_string();
         edge_rep.push_str(&Self::pad(edge_rep.len(), 8));
         let id = id_map.get(&parent).unwrap();
         edge_rep.push_str(id);
-- 
2.43.0


From 8ae4ed1032c8c025800f4e9f643f539503aafe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 24/27] fix: refuse absolute ancestors with offset 0

---
 lumberjack/src/io/encode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 193dc27..1ead97f 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -380,6 +380,10 @@ impl<'a> TryFrom<&'a str> for AbsoluteAncestor {
             .next()
             .ok_or_else(|| format_err!("Missing offset."))?
             .parse::<usize>()?;
+        // the root is shared by all terminals
+        if offset == 0 {
+            return Err(format_err!("Number of common ancestors has to be positive."));
+        }
         Ok(AbsoluteAncestor::new(offset, label))
     }
 }
-- 
2.43.0


From 84a0f70a5c9e58538bca106a7170818178108f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 25/27] fix: don't write empty feature columns in CONLLX

---
 lumberjack/src/io/conllx.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 5ed131f..dc3efdb 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -134,7 +134,8 @@ impl<'a> From<&'a Terminal> for Token {
         let mut token = Token::new(terminal.form());
         token.set_lemma(terminal.lemma());
         token.set_pos(Some(terminal.label()));
-        if let Some(features) = terminal.features() {
+        // an empty feature column is not valid in CONLLX
+        if let Some(features) = terminal.features().filter(|f| !f.inner().is_empty()) {
             token.set_features(Some(Features::from_string(features.to_string())));
         }
         token
@@ -154,7 +155,10 @@ impl From<Tree> for Sentence {
             let lemma = terminal.set_lemma::<String>(None);
             token.set_lemma(lemma);
             token.set_pos(Some(terminal.set_label(String::new())));
-            if let Some(morph) = terminal.set_features(None) {
+            if let Some(morph) = terminal
+                .set_features(None)
+                .filter(|f| !f.inner().is_empty())
+            {
                 token.set_features(Some(Features::from_string(morph.to_string())));
             }
             tokens.push((token, terminal.span().start));
-- 
2.43.0


From 17c46f25e0fc489360931bf883f9a8d1da239f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 26/27] fix: return an error for empty CONLLX sentences

---
 lumberjack/src/io/conllx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index dc3efdb..b23b1a0 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -77,6 +77,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Can't construct a tree from an empty sentence."));
+        }
         let mut tree = Tree::decode(AbsoluteEncoding::new(encoding), terminals);
         tree.restore_unary_chains("_")?;
         Ok(tree)
@@ -113,6 +116,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Can't construct a tree from an empty sentence."));
+        }
         let encoding = match AbsoluteEncoding::try_from_relative(RelativeEncoding::new(encoding)) {
             ConversionResult::Success(encoding) => encoding,
             ConversionResult::Error(err) => err.fix(),
-- 
2.43.0


From 79efb911fe1779cceb292d9f4a42631388328c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:47 +0000
Subject: [PATCH 27/27] fix: report unreadable label sets instead of panicking

---
 lumberjack-utils/src/bin/lumberjack-conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack-utils/src/bin/lumberjack-conversion.rs b/lumberjack-utils/src/bin/lumberjack-conversion.rs
index 7b0060c..c8511a1 100644
--- a/lumberjack-utils/src/bin/lumberjack-conversion.rs
+++ b/lumberjack-utils/src/bin/lumberjack-conversion.rs
@@ -147,7 +147,7 @@ fn main() {
 fn get_set_from_file(path: &str) -> LabelSet {
     LabelSet::Positive(
         std::fs::read_to_string(path)
-            .unwrap()
+            .or_exit("Can't read label set.", 1)
             .split_whitespace()
             .map(ToOwned::to_owned)
             .collect(),
-- 
2.43.0

