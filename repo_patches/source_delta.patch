From 377b94f5fb371beba4671b98dbc49d37d97f50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 01/17] fix: free a removed branch's root slot only once

remove_branch pushed the root's index onto the free list twice, so two later
add_node calls were given the same slot and the first new node was overwritten.
---
 src/tree.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 02cf0d4..0531ee3 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -241,7 +241,6 @@ impl<T> Tree<T> {
             .map(|x| x.node_ptr)
             .collect::<Vec<usize>>();
         nodes_to_free.push(node_id.node_ptr);
-        nodes_to_free.push(node_id.node_ptr);
 
         let next_sibling_id = node.next_sibling;
         let previous_sibling_id = node.previous_sibling;
-- 
2.43.0


From 8914415fa21cb28076a636f38c51f20759ef1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 02/17] fix: compare slot indexes, not primary keys, with the
 free list

get_node and node_exists looked the node's pk up in the list of free slot
indexes: removed nodes stayed reachable and live nodes could be reported removed.
---
 src/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 0531ee3..d380a64 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -196,7 +196,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return Err(NodeDoesNotExist { node_id });
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return Err(NodeWasRemoved { node_id });
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -222,7 +222,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return false;
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return false;
         }
         let current_node = &self.nodes[node_id.node_ptr];
-- 
2.43.0


From 14dcdda26d9cfd629bab8f523723335e5f7533fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 03/17] fix: validate the parent before taking a slot from the
 free list

A failed add_node dropped the popped index, after which the removed node in
that slot was reachable through its old id again.
---
 src/tree.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index d380a64..5a9a287 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -70,6 +70,12 @@ impl<T> Tree<T> {
         }
     }
     pub fn add_node(&mut self, data: T, parent: Option<NodeId>) -> Result<NodeId, TreeError> {
+        // Check the parent before a free index is taken, so that a failed call changes nothing
+        if let Some(parent_id) = parent {
+            if !self.node_exists(parent_id) {
+                return Err(NodeDoesNotExist { node_id: parent_id });
+            }
+        }
         // Get the next free index
         let mut reused_index = false;
         let next_index = match self.free_node_indexes.pop() {
@@ -94,9 +100,6 @@ impl<T> Tree<T> {
                 pk
             }
             Some(parent_id) => {
-                if !self.node_exists(parent_id) {
-                    return Err(NodeDoesNotExist { node_id: parent_id });
-                }
                 let pk = self
                     .counter
                     .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-- 
2.43.0


From 8ae9302be904eabf526064dc9344c907448e0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 04/17] fix: a stale id has no children

get_children ignored the id's pk: a removed node's id listed the children of
whatever node had since taken its slot, and an unknown index panicked.
---
 src/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.rs b/src/tree.rs
index 5a9a287..821ee3d 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -142,6 +142,9 @@ impl<T> Tree<T> {
 
     pub fn get_children(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut children = vec![];
+        if !self.node_exists(node_id) {
+            return children;
+        }
         let node = &self.nodes[node_id.node_ptr];
         let mut cur_children_ix = node.first_child;
         while let Some(child_index) = cur_children_ix {
-- 
2.43.0


From 6193cbc3d067977d764f7455340b7f28ac0a6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 05/17] fix: index lookup in an empty named graph reports an
 error

len() - 1 underflowed when the graph had no nodes.
---
 src/named_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/named_graph.rs b/src/named_graph.rs
index a37e035..9aeb3ac 100644
--- a/src/named_graph.rs
+++ b/src/named_graph.rs
@@ -78,7 +78,7 @@ impl<Ta> GraphNamedNodes<Ta> {
     }
 
     pub fn get_node_by_index(&self, index: NodeIndex) -> Result<&NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&self.graph.nodes[index])
@@ -87,7 +87,7 @@ impl<Ta> GraphNamedNodes<Ta> {
         &mut self,
         index: NodeIndex,
     ) -> Result<&mut NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&mut self.graph.nodes[index])
-- 
2.43.0


From 30ab38c23d0ada87092c15bf5c2b0bced6755c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 06/17] fix: make the tree module public

VM::execute_instruction takes a Tree and a NodeId, so without it no VM can be
implemented outside this crate as the documentation describes.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1c2aa0..c28e426 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,5 +60,5 @@ pub mod simple_graph;
 pub mod steuer_map;
 pub mod steuer_sets;
 pub mod test_helpers;
-mod tree;
+pub mod tree;
 pub mod vms;
-- 
2.43.0


From c559e598a14e331a5ad4b2c1da2c90caad54351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 07/17] fix: only consumed chars escape a stop char

check_allowed changed the escape state on every peek, so peeking twice at an
escaped stop char, or peeking and then consuming it, gave different answers.
A stop char was ignored without an escape char, and peek_mut looked past it.
---
 src/peekables.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/peekables.rs b/src/peekables.rs
index 401ae2d..528b0fe 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -136,7 +136,8 @@ where
         }
         let res = self.to_parse.next();
         if res.is_some() {
-            self.current_position += 1
+            self.current_position += 1;
+            self.escape = res == self.escape_char;
         }
         res
     }
@@ -154,6 +155,9 @@ where
     }
 
     fn peek_mut(&mut self) -> Option<&mut char> {
+        if !self.check_allowed() {
+            return None;
+        }
         self.to_parse.peek_mut()
     }
     fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
@@ -162,7 +166,8 @@ where
         }
         let res = self.to_parse.next_if(func);
         if res.is_some() {
-            self.current_position += 1
+            self.current_position += 1;
+            self.escape = res == self.escape_char;
         }
         res
     }
@@ -173,7 +178,8 @@ where
         }
         let res = self.to_parse.next_if_eq(expected);
         if res.is_some() {
-            self.current_position += 1
+            self.current_position += 1;
+            self.escape = res == self.escape_char;
         }
         res
     }
@@ -184,16 +190,9 @@ where
     T: TPeekable<Item = char>,
 {
     fn check_allowed(&mut self) -> bool {
-        let next = self.to_parse.peek();
-        if let (Some(&c), Some(escape_char), Some(stop_char)) =
-            (next, self.escape_char, self.stop_on)
-        {
-            if c == escape_char {
-                self.escape = true;
-            } else if c == stop_char && !self.escape {
+        if let (Some(&c), Some(stop_char)) = (self.to_parse.peek(), self.stop_on) {
+            if c == stop_char && !self.escape {
                 return false;
-            } else {
-                self.escape = false;
             }
         }
         true
-- 
2.43.0


From ed56dc1f294fbea53670130a309e8dfc97589de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 08/17] fix: select a production by what it as a whole can
 start with

A production starting with a nullable non-terminal was selected by everything
that may follow that non-terminal anywhere in the grammar. LL(1) grammars were
rejected as conflicting, and an empty leading terminal panicked.
---
 src/steuer_map.rs | 69 ++++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/steuer_map.rs b/src/steuer_map.rs
index 63c1a2b..fb7ffb6 100644
--- a/src/steuer_map.rs
+++ b/src/steuer_map.rs
@@ -3,16 +3,18 @@
 //! A steuer map links a lookahead symbol to a specific production. This module
 //! turns FIRST/FOLLOW/Steuer information into executable tables used by Parser.
 use std::collections::{HashMap, HashSet};
+use std::convert::TryFrom;
+use std::mem;
 use std::rc::Rc;
 
-use crate::parser_data::{ElementData, ElementIndex, ElementType, ParserData};
+use crate::first_sets::first_set_of_partial;
+use crate::parser_data::{ElementIndex, ElementType, ParserData};
 use crate::vms::VM;
 
 use crate::errors::GrammarError;
-use crate::errors::GrammarError::{MissingFollowSet, MissingSteuerSet, SteuerSetsNotDistinct};
+use crate::errors::GrammarError::{MissingFollowSet, SteuerSetsNotDistinct};
 use crate::parser_data::Production;
-use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember};
-use crate::steuer_sets::get_steuer_sets;
+use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
 
 /// Forgot what NT means here. NonTerminal?
 pub struct NTRules<T>
@@ -29,25 +31,23 @@ pub type Steuermap = HashMap<SetMember, Rc<Production>>;
 pub fn get_steuermaps<T>(
     first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
-    parser_data: ParserData<T>,
+    mut parser_data: ParserData<T>,
 ) -> Result<HashMap<ElementIndex, NTRules<T>>, GrammarError>
 where
     T: VM,
 {
-    let steuer_sets = get_steuer_sets(first_sets, follow_sets)?;
     let mut steuer_maps = HashMap::new();
-    for (rule_name, productions) in parser_data.parse_rules.rules.into_iter() {
+    for (rule_name, productions) in mem::take(&mut parser_data.parse_rules.rules).into_iter() {
         let mut steuermap = Steuermap::new();
 
         for prod in productions.possible_productions.into_iter() {
             steuermap_of_production(
-                &steuer_sets,
+                first_sets,
                 follow_sets,
                 &mut steuermap,
                 prod,
                 rule_name,
-                &parser_data.element_types,
-                &parser_data.element_data,
+                &parser_data,
             )?;
         }
         steuer_maps.insert(
@@ -62,41 +62,56 @@ where
     Ok(steuer_maps)
 }
 
-fn steuermap_of_production(
-    steuer_sets: &NamedSetsNoEmpty,
+fn steuermap_of_production<T>(
+    first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
     steuer_map: &mut Steuermap,
     prod: Rc<Production>,
     cur_rule_name: ElementIndex,
-    el_types: &[ElementType],
-    el_data: &[ElementData],
-) -> Result<(), GrammarError> {
+    parser_data: &ParserData<T>,
+) -> Result<(), GrammarError>
+where
+    T: VM,
+{
     let prod_ref = Rc::clone(&prod);
     let prod = &*prod;
     match prod {
         Production::NotEmpty(el) => {
             let first = el[0];
-            let et = el_types
+            let et = parser_data
+                .element_types
                 .get(first)
                 .ok_or(GrammarError::MissingElementForIndex { index: first })?;
-            match et {
-                ElementType::Terminal => {
-                    let name = el_data.get(first).unwrap().name.clone();
-                    let old_key =
-                        steuer_map.insert(SetMember::Char(name.chars().next().unwrap()), prod_ref);
+            let name = parser_data.element_data.get(first).unwrap().name.clone();
+            match (et, name.chars().next()) {
+                (ElementType::Terminal, Some(first_char)) => {
+                    let old_key = steuer_map.insert(SetMember::Char(first_char), prod_ref);
                     if old_key.is_some() {
                         return Err(SteuerSetsNotDistinct {
                             steuer_terminal: name.clone(),
-                            steuer_char: name.chars().next().unwrap(),
+                            steuer_char: first_char,
                             rule_name: cur_rule_name.to_string(),
                         });
                     }
                 }
-                ElementType::NonTerminal => {
-                    let steuer_menge = steuer_sets
-                        .get(&first)
-                        .ok_or(MissingSteuerSet { index: first })?;
-                    fill_with_steuer_set(steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
+                _ => {
+                    // What can follow the first element in other productions must not
+                    // select this one: only what this production as a whole starts with.
+                    let mut first_set = first_set_of_partial(el, first_sets, parser_data)?;
+                    let has_empty = first_set.remove(&SetMemberWithEmpty::Empty);
+                    let mut steuer_menge = first_set
+                        .iter()
+                        .map(|x| SetMember::try_from(*x).unwrap())
+                        .collect::<HashSet<_>>();
+                    if has_empty {
+                        let follow_set = follow_sets.get(&cur_rule_name).ok_or(
+                            MissingFollowSet {
+                                index: cur_rule_name,
+                            },
+                        )?;
+                        steuer_menge.extend(follow_set);
+                    }
+                    fill_with_steuer_set(&steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
                 }
             }
             Ok(())
-- 
2.43.0


From 1cbd966f9c616f8271170e388f5058d441a5d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 09/17] fix: report left recursive rules instead of recursing
 forever

get_first_sets overflowed the stack on any rule that can reach itself without
consuming a char first.
---
 src/errors.rs        |  6 ++++++
 src/first_sets.rs    | 15 +++++++++++----
 src/script_parser.rs |  2 --
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 7a1a718..78aba07 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -95,6 +95,9 @@ pub enum GrammarError {
     MissingProduction {
         index: ElementIndex,
     },
+    LeftRecursion {
+        index: ElementIndex,
+    },
     SteuerSetsNotDistinct {
         steuer_terminal: String,
         steuer_char: char,
@@ -133,6 +136,9 @@ impl fmt::Display for GrammarError {
             GrammarError::MissingProduction { index } => {
                 write!(f, " \"{index}\" not in productions")
             }
+            GrammarError::LeftRecursion { index } => {
+                write!(f, " \"{index}\" is left recursive")
+            }
             GrammarError::SteuerSetsNotDistinct { .. } => write!(f, "steuersets not distinct"),
             GrammarError::UnexpectedElementError { reason, pos } => {
                 write!(f, " \"{reason}\" at pos {pos} was not expected")
diff --git a/src/first_sets.rs b/src/first_sets.rs
index b12bc9f..42ff7fc 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -47,7 +47,7 @@ where
 {
     let mut first_sets: NamedSets = HashMap::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data, &mut vec![])?;
     }
     Ok(first_sets)
 }
@@ -56,6 +56,7 @@ fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
     parser_data: &ParserData<T>,
+    in_progress: &mut Vec<ElementIndex>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
     T: VM,
@@ -63,14 +64,19 @@ where
     let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;
     let res = match set_maybe {
         None => {
+            if in_progress.contains(&el_ix) {
+                return Err(GrammarError::LeftRecursion { index: el_ix });
+            }
+            in_progress.push(el_ix);
             let mut set: HashSet<SetMemberWithEmpty> = HashSet::new();
             let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                     return Err(GrammarError::MissingProduction { index: el_ix });
                 };
             for production in &productions.possible_productions {
-                let rus = get_first_set_of_production(production, first_sets, parser_data)?;
+                let rus = get_first_set_of_production(production, first_sets, parser_data, in_progress)?;
                 set.extend(&rus);
             }
+            in_progress.pop();
             first_sets.insert(el_ix, set.clone());
             Ok(set)
         }
@@ -106,6 +112,7 @@ fn get_first_set_of_production<T>(
     production: &Production,
     first_sets: &mut NamedSets,
     parser_data: &ParserData<T>,
+    in_progress: &mut Vec<ElementIndex>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
     T: VM,
@@ -114,10 +121,10 @@ where
         Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
         Production::NotEmpty(el_ixs) => {
             let mut first_menge =
-                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data)?;
+                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data, in_progress)?;
             if first_menge.contains(&SetMemberWithEmpty::Empty) {
                 for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data)?;
+                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data, in_progress)?;
                     let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                     first_menge.extend(cur_set);
                     if !has_empty {
diff --git a/src/script_parser.rs b/src/script_parser.rs
index de9af83..335a2cd 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -21,8 +21,6 @@ use crate::rule_parsing::RuleParser;
 use crate::sets::SetMember;
 use crate::steuer_map::{NTRules, get_steuermaps};
 
-//TODO detect left recursive rules that lead to nonterminating of get_first_sets
-
 /// The Parser is the core component of the library, responsible for parsing input text
 /// according to grammar rules and executing associated VM instructions.
 ///
-- 
2.43.0


From c5945426413486e7d8b853ca8636f1dba54ff73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 10/17] fix: reject a script with input left over after the
 start symbol

parse returned Ok for any text that merely begins with a sentence of the grammar.
---
 src/script_parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 335a2cd..dd8fb6b 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -212,6 +212,13 @@ where
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
+        if let Some(chr) = to_parse.peek() {
+            return Err(UnexpectedCharError {
+                chr: *chr,
+                pos: to_parse.cur_pos(),
+                expected: String::from("end of input"),
+            });
+        }
         Ok(tree)
     }
 
-- 
2.43.0


From 7625f7565ff306dd2dd1bbf3d0ec0138546eb3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 11/17] fix: start parsing at the start symbol given to
 new_from_parser_data

start_idx only reached the FOLLOW sets; parse always looked for an element
named start and panicked when there was none.
---
 src/script_parser.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index dd8fb6b..82fd4b8 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -58,6 +58,8 @@ where
     rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
     /// List of all grammar elements (terminals and non-terminals)
     elements: Vec<ElementVerbose>,
+    /// Index of the non-terminal to start with, if it is not the one named "start"
+    start_idx: Option<ElementIndex>,
 }
 
 impl<'a, T> Parser<'a, T>
@@ -111,6 +113,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_idx: None,
         }
     }
 
@@ -139,7 +142,8 @@ where
         let elements_verbose = parser_data.get_elements_verbose();
         let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();
 
-        let parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        let mut parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        parser.start_idx = Some(start_idx);
         parser
     }
 
@@ -165,6 +169,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_idx: None,
         }
     }
 
@@ -202,13 +207,16 @@ where
     ) -> Result<Tree<String>, ParserError> {
         let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());
         let mut to_parse = ParseProcess::<PeekableWrapper<Chars>>::new(&mut peekable, None, None);
-        let start_index = self
-            .elements
-            .iter()
-            .position(|r| {
-                *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
-            })
-            .unwrap();
+        let start_index = match self.start_idx {
+            Some(start_idx) => start_idx,
+            None => self
+                .elements
+                .iter()
+                .position(|r| {
+                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
+                })
+                .unwrap(),
+        };
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
-- 
2.43.0


From 724d68b2f3af7a93f374e8c88cfc241a6042db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 12/17] fix: CountingVm consumes the instruction section

VM::parse_instructions has to consume it fully; anything but whitespace in the
braces made the rule fail to parse.
---
 src/vms/counting_vm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vms/counting_vm.rs b/src/vms/counting_vm.rs
index 2e3dbf5..7483df5 100644
--- a/src/vms/counting_vm.rs
+++ b/src/vms/counting_vm.rs
@@ -19,11 +19,15 @@ impl VM for CountingVm {
     fn parse_instructions<T>(
         &self,
         _prod_name: &str,
-        _to_parse: &mut ParseProcess<T>,
+        to_parse: &mut ParseProcess<T>,
     ) -> Result<Vec<Self::Tinstrution>, ParserError>
     where
         T: TPeekable<Item = char>,
     {
+        let mut c = to_parse.next();
+        while let Some(_cc) = c {
+            c = to_parse.next()
+        }
         Ok(vec![0])
     }
 
-- 
2.43.0


From fa2f5501f3d7ee42bb6154c77539cbe0c4fa519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 13/17] fix: stack VMs report arithmetic overflow in the error
 register

Scripts like "1 2 -" panicked (or wrapped in release builds), and Pow
truncated its exponent to 32 bits.
---
 src/vms/simple_stack_vm.rs | 33 ++++++++++++++++++++++++++-------
 src/vms/stack_vm.rs        | 33 ++++++++++++++++++++++++++-------
 2 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index a5cc39f..e9ea8f1 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -30,6 +30,12 @@ pub enum Instruction {
 
 pub struct SimpleStackVm {}
 
+/// val * base^exp + add, or None if it does not fit
+fn checked_pow_add(val: usize, base: usize, exp: usize, add: usize) -> Option<usize> {
+    let power = base.checked_pow(u32::try_from(exp).ok()?)?;
+    val.checked_mul(power)?.checked_add(add)
+}
+
 impl VM for SimpleStackVm {
     type Tstate = SimpleStackVmState;
     type Tinstrution = Instruction;
@@ -74,16 +80,22 @@ impl VM for SimpleStackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    if let Some(res) = state.reg.checked_add(var) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Arithmetic overflow
+                    }
                 } else {
                     state.error = 1
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    if let Some(res) = var.checked_sub(state.reg) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Arithmetic overflow
+                    }
                 } else {
                     state.error = 1
                 }
@@ -143,8 +155,11 @@ impl VM for SimpleStackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) + state.reg2;
-                    state.stack.push(res);
+                    if let Some(res) = checked_pow_add(val, *base, state.reg, state.reg2) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Arithmetic overflow
+                    }
                 } else {
                     state.error = 1
                 }
@@ -152,7 +167,11 @@ impl VM for SimpleStackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg = state.reg + c;
+                if let Some(res) = state.reg.checked_add(*c) {
+                    state.reg = res;
+                } else {
+                    state.error = 3; // Arithmetic overflow
+                }
             }
         }
     }
diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 981dbe4..8ce32f1 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -34,6 +34,12 @@ pub struct StackVmState {
 }
 pub struct StackVm {}
 
+/// val * base^exp + add, or None if it does not fit
+fn checked_pow_add(val: isize, base: usize, exp: isize, add: isize) -> Option<isize> {
+    let power = base.checked_pow(u32::try_from(exp).ok()?)?;
+    val.checked_mul(isize::try_from(power).ok()?)?.checked_add(add)
+}
+
 impl VM for StackVm {
     type Tstate = StackVmState;
     type Tinstrution = Instruction;
@@ -98,16 +104,22 @@ impl VM for StackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    if let Some(res) = state.reg.checked_add(var) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Arithmetic overflow
+                    }
                 } else {
                     state.error = 1;
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    if let Some(res) = var.checked_sub(state.reg) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Arithmetic overflow
+                    }
                 } else {
                     state.error = 1;
                 }
@@ -167,8 +179,11 @@ impl VM for StackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) as isize + state.reg2;
-                    state.stack.push(res);
+                    if let Some(res) = checked_pow_add(val, *base, state.reg, state.reg2) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Arithmetic overflow
+                    }
                 } else {
                     state.error = 1;
                 }
@@ -176,7 +191,11 @@ impl VM for StackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg += c;
+                if let Some(res) = state.reg.checked_add(*c) {
+                    state.reg = res;
+                } else {
+                    state.error = 3; // Arithmetic overflow
+                }
             }
         }
     }
-- 
2.43.0


From 03e060d377aff28b37c505e0c89eb76d1258bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 14/17] fix: StackVm rejects constants that do not fit

PushConst and RegAddConst turned constants above isize::MAX into negative ones.
---
 src/vms/stack_vm.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 8ce32f1..2f7b0c2 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -34,6 +34,10 @@ pub struct StackVmState {
 }
 pub struct StackVm {}
 
+fn parse_const(val: usize) -> Result<isize, ParserError> {
+    isize::try_from(val).map_err(|_| ParserError::Impossible)
+}
+
 /// val * base^exp + add, or None if it does not fit
 fn checked_pow_add(val: isize, base: usize, exp: isize, add: isize) -> Option<isize> {
     let power = base.checked_pow(u32::try_from(exp).ok()?)?;
@@ -63,7 +67,7 @@ impl VM for StackVm {
                 "RegAddConst" => {
                     parse_whitespace(to_parse);
                     let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::RegAddConst(val as isize));
+                    instructions.push(Instruction::RegAddConst(parse_const(val)?));
                 }
                 "Sub" => instructions.push(Instruction::Sub),
                 "Digit" => instructions.push(Instruction::Digit),
@@ -73,7 +77,7 @@ impl VM for StackVm {
                 "PushConst" => {
                     parse_whitespace(to_parse);
                     let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::PushConst(val as isize));
+                    instructions.push(Instruction::PushConst(parse_const(val)?));
                 }
                 "PushFromTree" => instructions.push(Instruction::PushFromTree),
                 "PushReg" => instructions.push(Instruction::PushReg),
-- 
2.43.0


From 36a4784bd4f0e879d8e73fba9bd45383ad58fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 15/17] fix: parse the documented $IGNORE directive

The readme's "$IGNORE: production_name;" was rejected as a malformed rule.
---
 src/rule_parsing.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 92782b2..074647a 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -55,6 +55,10 @@ where
             if self.parse_process.peek().is_none() {
                 break;
             }
+            if self.parse_symbol('$').is_ok() {
+                self.parse_directive()?;
+                continue;
+            }
             let (rule_name, rule) = self.parse_rule()?;
             self.merge_rule(rule, rule_name);
         }
@@ -192,6 +196,24 @@ where
         }
     }
 
+    /// Parses the part after the $ in "$IGNORE: production_name;"
+    fn parse_directive(&mut self) -> Result<(), ParserError> {
+        let pos = self.parse_process.cur_pos();
+        let operation = parse_var_name(&mut self.parse_process)?;
+        if operation != "IGNORE" {
+            return Err(ParserError::UnknownSpecialOperation { operation, pos });
+        }
+        self.parse_whitespace();
+        self.parse_symbol(':')?;
+        self.parse_whitespace();
+        let name = parse_var_name(&mut self.parse_process)?;
+        self.parse_whitespace();
+        self.parse_symbol(';')?;
+        self.parser_data.parse_rules.ignore =
+            Some(self.parser_data.get_or_add_non_terminal(&name));
+        Ok(())
+    }
+
     fn parse_overrides(&mut self) -> Result<Option<ElementIndex>, ParserError> {
         let mut ignore_this = self.parser_data.parse_rules.ignore.clone();
         if self.parse_symbol('$').is_ok() {
-- 
2.43.0


From 371b97d30987dc0e6384077e20418b9a8b0e61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 16/17] fix: the FIRST set of no elements is the empty word

---
 src/first_sets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/first_sets.rs b/src/first_sets.rs
index 42ff7fc..1133063 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -26,7 +26,7 @@ pub fn first_set_of_partial<T>(
 where
     T: VM,
 {
-    let mut set = HashSet::new();
+    let mut set = HashSet::from([SetMemberWithEmpty::Empty]);
 
     for &ix in el_ixs {
         let cur_set = get_first_set_of_element(ix, first_sets, parser_data)?
-- 
2.43.0


From d772ec713e9a1a0f8897b10725f98bd5358a113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 17/17] fix: allow white space inside the setting of a rule

$[IGNORE: x] was rejected although $[IGNORE : x] and $IGNORE: x; are read.
---
 src/rule_parsing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 074647a..b5cfb68 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -218,9 +218,11 @@ where
         let mut ignore_this = self.parser_data.parse_rules.ignore.clone();
         if self.parse_symbol('$').is_ok() {
             self.parse_symbol('[')?;
+            self.parse_whitespace();
             let varname = parse_var_name(&mut self.parse_process)?;
             self.parse_whitespace();
             self.parse_symbol(':')?;
+            self.parse_whitespace();
 
             if varname == "IGNORE" {
                 if self.parse_symbol('#').is_ok() {
@@ -235,6 +237,7 @@ where
                 }
             }
 
+            self.parse_whitespace();
             self.parse_symbol(']')?;
         };
 
-- 
2.43.0

