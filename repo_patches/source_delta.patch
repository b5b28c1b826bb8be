From 67f75e4f690183ffa009c2a8a56dcb681add1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 1/6] fix: empty language looped from 0 contains the empty
 string

---
 src/regular_expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 02a5b4f..94c0392 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1355,7 +1355,9 @@ impl ReManager {
             e
         } else {
             match &e.expr {
-                // empty ^ [i, j] --> empty
+                // empty ^ [0, j] --> epsilon (it contains empty ^ 0)
+                BaseRegLan::Empty if range.start() == 0 => self.epsilon,
+                // empty ^ [i, j] --> empty if i > 0
                 BaseRegLan::Empty => self.empty,
                 // epsilon ^ [i, j] --> epsilon
                 BaseRegLan::Epsilon => self.epsilon,
-- 
2.43.0


From 9a5dc4f48a631dd3ce43cfeb7c7a576bfbb082d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 2/6] fix: interval_cover must compare with the start of the
 next interval

---
 src/character_sets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/character_sets.rs b/src/character_sets.rs
index d7093f0..67801b1 100644
--- a/src/character_sets.rs
+++ b/src/character_sets.rs
@@ -935,7 +935,7 @@ impl CharPartition {
             }
         } else {
             // note: we know i < p.len() <= MAX_CHAR so i+1 can't overflow here
-            let next_ai = self.end(i + 1);
+            let next_ai = self.start(i + 1);
             if b < next_ai {
                 // a_i <= b_i < a <= b < a_{i+1}
                 CoverResult::DisjointFromAll
-- 
2.43.0


From bdf92cef885de1c4635254fd95820879a8563691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 3/6] fix: start_char is exact for intersections and for
 concatenations with an empty operand

---
 src/regular_expressions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 94c0392..5cf1638 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1870,12 +1870,12 @@ impl ReManager {
             BaseRegLan::Epsilon => false,
             BaseRegLan::Range(set) => set.contains(c),
             BaseRegLan::Concat(e1, e2) => {
-                self.start_char(e1, c) || e1.nullable && self.start_char(e2, c)
+                self.start_char(e1, c) && !self.is_empty_re(e2)
+                    || e1.nullable && self.start_char(e2, c)
             }
             BaseRegLan::Loop(e, _) => self.start_char(e, c),
-            BaseRegLan::Inter(args) => args.iter().all(|x| self.start_char(x, c)),
             BaseRegLan::Union(args) => args.iter().any(|x| self.start_char(x, c)),
-            BaseRegLan::Complement(_) => {
+            BaseRegLan::Inter(_) | BaseRegLan::Complement(_) => {
                 // expensive case
                 let d = self.deriv(e, c);
                 !self.is_empty_re(d)
-- 
2.43.0


From 2e30da4f79cca9ea9ec3a1271fa375eb1a0dcd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 4/6] fix: AutomatonBuilder validates the transitions as given
 and leaves them unchanged

---
 src/automata.rs | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/automata.rs b/src/automata.rs
index b22341d..1bf8138 100644
--- a/src/automata.rs
+++ b/src/automata.rs
@@ -539,7 +539,7 @@ impl<'a> Iterator for FinalStateIterator<'a> {
     }
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 struct StateInConstruction {
     is_final: bool,
     default_successor: Option<usize>,
@@ -619,6 +619,36 @@ impl StateInConstruction {
         CharPartition::try_from_iter(self.transitions.iter().map(|x| x.0))
     }
 
+    // Check the transitions as given and make a cleaned-up copy of this state:
+    // - fails if two overlapping transitions have different successors or if
+    //   some characters have no successor
+    // - overlapping transitions with the same successor are merged
+    fn checked_copy(&self) -> Result<StateInConstruction, Error> {
+        let mut sorted = self.transitions.clone();
+        sorted.sort_by_key(|x| x.0.pick());
+        let mut merged: Vec<(CharSet, usize)> = Vec::with_capacity(sorted.len());
+        for (set, next_id) in sorted {
+            match merged.last_mut() {
+                Some((last_set, last_id)) if last_set.inter(&set).is_some() => {
+                    if *last_id != next_id {
+                        return Err(Error::NonDisjointCharSets);
+                    }
+                    *last_set = last_set.union(&set).unwrap();
+                }
+                _ => merged.push((set, next_id)),
+            }
+        }
+        let mut copy = StateInConstruction {
+            transitions: merged,
+            ..*self
+        };
+        if copy.default_successor.is_none() && !copy.make_partition()?.empty_complement() {
+            return Err(Error::MissingDefaultSuccessor);
+        }
+        copy.cleanup();
+        Ok(copy)
+    }
+
     fn make_successor(&self, p: &CharPartition) -> Box<[usize]> {
         let n = p.len();
         let mut result = vec![0; n];
@@ -706,7 +736,7 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
     ///
     /// Construct an automaton
     /// - fails if a state `s` has non-deterministic transitions,
-    ///   i.e., if two distinct transitions from s have non-disjoint labels (i.e., character sets).
+    ///   i.e., if two transitions from s to distinct states have non-disjoint labels (i.e., character sets).
     /// - fails if a state `s` has a default successor but its transitions
     ///   already cover the full alphabet.
     /// - fails if a state `s` doesn't have a default successor but its
@@ -716,15 +746,12 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let n = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(n);
-        for (i, s) in self.states.iter_mut().enumerate() {
-            s.cleanup();
+        for (i, s) in self.states.iter().enumerate() {
+            let s = s.checked_copy()?;
             let p = s.make_partition()?;
             if s.default_successor.is_some() && p.empty_complement() {
                 return Err(Error::EmptyComplementaryClass);
             }
-            if s.default_successor.is_none() && !p.empty_complement() {
-                return Err(Error::MissingDefaultSuccessor);
-            }
             let successor = s.make_successor(&p);
             if s.is_final {
                 num_final_states += 1;
@@ -753,7 +780,8 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let num_states = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(num_states);
-        for (i, s) in self.states.iter_mut().enumerate() {
+        for (i, s) in self.states.iter().enumerate() {
+            let mut s = s.clone();
             s.cleanup();
             let p = s.make_partition().unwrap();
             let successor = s.make_successor(&p);
-- 
2.43.0


From edbf0c7f0644ad70309ecd4c789d33a35359f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:19 +0000
Subject: [PATCH 5/6] fix: minimize handles blocks of states without
 predecessors

---
 src/minimizer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/minimizer.rs b/src/minimizer.rs
index 8c287cb..d0d35c6 100644
--- a/src/minimizer.rs
+++ b/src/minimizer.rs
@@ -218,8 +218,14 @@ impl SplitterSet {
         }
     }
 
+    // Remove and return the list of splitters of block b.
+    // The list is empty if no splitter was ever added for b (i.e., if the
+    // states in b have no predecessors).
     fn take_list(&mut self, b: u32) -> SplitterList {
-        std::mem::take(&mut self.list[b as usize])
+        match self.list.get_mut(b as usize) {
+            Some(list) => std::mem::take(list),
+            None => SplitterList::default(),
+        }
     }
 
     fn add_splitter(&mut self, s: &Splitter) {
-- 
2.43.0


From 3aeabe1c7812c79c7edd9f3f0173815689df9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 6/6] fix: SmtStrings built from text replace code points that
 are not SMT characters

---
 src/smt_strings.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 988370b..f1fe3d4 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -109,6 +109,9 @@ impl AsRef<[u32]> for SmtString {
 ///
 /// Construct an SmtString from a UTF8 string x
 ///
+/// Any character of x that's larger than 0x2ffff is not a valid SMT character
+/// and is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
@@ -118,7 +121,7 @@ impl AsRef<[u32]> for SmtString {
 /// ```
 impl From<&str> for SmtString {
     fn from(x: &str) -> Self {
-        SmtString::make(x.chars().map(|c| c as u32).collect())
+        SmtString::make(x.chars().map(char_code).collect())
     }
 }
 
@@ -180,9 +183,21 @@ impl From<u32> for SmtString {
 ///
 /// Construct a single-character string from character x.
 ///
+/// Convert x to 0xfffd if it's not a valid character (i.e., if x is not in the range [0, 0x2ffff])
+///
 impl From<char> for SmtString {
     fn from(x: char) -> SmtString {
-        SmtString::make(vec![x as u32])
+        SmtString::make(vec![char_code(x)])
+    }
+}
+
+// SMT code of character x: the code point of x, or 0xfffd if that's not a valid SMT character
+fn char_code(x: char) -> u32 {
+    let x = x as u32;
+    if x <= MAX_CHAR {
+        x
+    } else {
+        REPLACEMENT_CHAR
     }
 }
 
@@ -222,7 +237,7 @@ fn new_automaton() -> ParsingAutomaton {
 impl ParsingAutomaton {
     // add char x to the string so far
     fn push(&mut self, x: char) {
-        self.string_so_far.push(x as u32);
+        self.string_so_far.push(char_code(x));
     }
 
     // add char x to the pending array
@@ -329,6 +344,8 @@ impl ParsingAutomaton {
 /// Parse a string literal in the SMT-LIB syntax and
 /// convert it to an SmtString.
 ///
+/// Any character of `a` larger than 0x2ffff is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
-- 
2.43.0

