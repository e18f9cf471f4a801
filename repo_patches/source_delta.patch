From 27fc0a5b16e67eb1744c0f5c55d93c805dda3fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 01/12] fix: refuse to build a term whose right child offset
 does not fit its marker

---
 src/kernel/term.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/kernel/term.rs b/src/kernel/term.rs
index 7033099..a8cc724 100644
--- a/src/kernel/term.rs
+++ b/src/kernel/term.rs
@@ -58,6 +58,15 @@ enum TermComponent {
     Atom(Atom),
 }
 
+/// The right_offset for a marker whose left child has `left_len` components.
+/// Panics if the offset does not fit, because a truncated offset denotes a different term.
+fn right_offset_after(left_len: usize) -> u16 {
+    match u16::try_from(left_len) {
+        Ok(len) if len < u16::MAX => len + 1,
+        _ => panic!("term too large: left child has {} components", left_len),
+    }
+}
+
 /// Decomposition of a term into its lambda-calculus structure.
 /// This provides a cleaner way to pattern match on terms without dealing with
 /// "head + N arguments" representations.
@@ -1764,7 +1773,7 @@ impl Term {
     /// For non-dependent arrow types, output simply doesn't reference `Atom::FreeVariable(0)`.
     pub fn pi(input: Term, output: Term) -> Term {
         // right_offset points to where the output type starts (after the marker and input)
-        let right_offset = (1 + input.components.len()) as u16;
+        let right_offset = right_offset_after(input.components.len());
         let mut components = vec![TermComponent::Pi { right_offset }];
         components.extend(input.components);
         components.extend(output.components);
@@ -1774,7 +1783,7 @@ impl Term {
     /// Create a Lambda value `fun (x : input) => body`.
     pub fn lambda(input: Term, body: Term) -> Term {
         // right_offset points to where the body starts (after the marker and input type)
-        let right_offset = (1 + input.components.len()) as u16;
+        let right_offset = right_offset_after(input.components.len());
         let mut components = vec![TermComponent::Lambda { right_offset }];
         components.extend(input.components);
         components.extend(body.components);
@@ -1792,7 +1801,7 @@ impl Term {
 
     /// Create a universal quantifier `forall (x : binder_type), body`.
     pub fn forall(binder_type: Term, body: Term) -> Term {
-        let right_offset = (1 + binder_type.components.len()) as u16;
+        let right_offset = right_offset_after(binder_type.components.len());
         let mut components = vec![TermComponent::ForAll { right_offset }];
         components.extend(binder_type.components);
         components.extend(body.components);
@@ -1809,7 +1818,7 @@ impl Term {
 
     /// Create an existential quantifier `exists (x : binder_type), body`.
     pub fn exists(binder_type: Term, body: Term) -> Term {
-        let right_offset = (1 + binder_type.components.len()) as u16;
+        let right_offset = right_offset_after(binder_type.components.len());
         let mut components = vec![TermComponent::Exists { right_offset }];
         components.extend(binder_type.components);
         components.extend(body.components);
@@ -2519,7 +2528,7 @@ impl Term {
         }
         let mut result = self.clone();
         for arg in args {
-            let right_offset = (1 + result.components.len()) as u16;
+            let right_offset = right_offset_after(result.components.len());
             let mut components =
                 Vec::with_capacity(1 + result.components.len() + arg.components.len());
             components.push(TermComponent::Application { right_offset });
-- 
2.43.0


From 793828d48df42ae80532f738f97284955ac4d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 02/12] fix: do not wrap binder depths and de Bruijn indices on
 overflow

---
 src/kernel/term.rs | 52 ++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/kernel/term.rs b/src/kernel/term.rs
index a8cc724..2fba438 100644
--- a/src/kernel/term.rs
+++ b/src/kernel/term.rs
@@ -67,6 +67,12 @@ fn right_offset_after(left_len: usize) -> u16 {
     }
 }
 
+/// One binder deeper, for binder depths and de Bruijn indices.
+/// Panics on overflow, because a wrapped index refers to a different binder.
+fn deeper(index: u16) -> u16 {
+    index.checked_add(1).expect("bound variable index overflow")
+}
+
 /// Decomposition of a term into its lambda-calculus structure.
 /// This provides a cleaner way to pattern match on terms without dealing with
 /// "head + N arguments" representations.
@@ -714,7 +720,7 @@ impl<'a> TermRef<'a> {
                                 Term::atom(Atom::BoundVariable(depth))
                             }
                             Atom::BoundVariable(i) if *i >= depth => {
-                                Term::atom(Atom::BoundVariable(*i + 1))
+                                Term::atom(Atom::BoundVariable(deeper(*i)))
                             }
                             _ => term.clone(),
                         },
@@ -740,7 +746,7 @@ impl<'a> TermRef<'a> {
                             let new_output = abstract_free_var_as_bound_at_depth(
                                 &output.to_owned(),
                                 var_id,
-                                depth + 1,
+                                deeper(depth),
                             );
                             Term::pi(new_input, new_output)
                         }
@@ -753,7 +759,7 @@ impl<'a> TermRef<'a> {
                             let new_body = abstract_free_var_as_bound_at_depth(
                                 &body.to_owned(),
                                 var_id,
-                                depth + 1,
+                                deeper(depth),
                             );
                             Term::lambda(new_input, new_body)
                         }
@@ -766,7 +772,7 @@ impl<'a> TermRef<'a> {
                             let new_body = abstract_free_var_as_bound_at_depth(
                                 &body.to_owned(),
                                 var_id,
-                                depth + 1,
+                                deeper(depth),
                             );
                             Term::forall(new_binder_type, new_body)
                         }
@@ -779,7 +785,7 @@ impl<'a> TermRef<'a> {
                             let new_body = abstract_free_var_as_bound_at_depth(
                                 &body.to_owned(),
                                 var_id,
-                                depth + 1,
+                                deeper(depth),
                             );
                             Term::exists(new_binder_type, new_body)
                         }
@@ -878,7 +884,7 @@ impl<'a> TermRef<'a> {
                                 Term::atom(Atom::BoundVariable(depth))
                             }
                             Atom::BoundVariable(i) if *i >= depth => {
-                                Term::atom(Atom::BoundVariable(*i + 1))
+                                Term::atom(Atom::BoundVariable(deeper(*i)))
                             }
                             _ => term.clone(),
                         },
@@ -904,7 +910,7 @@ impl<'a> TermRef<'a> {
                             let new_output = abstract_free_var_as_bound_at_depth(
                                 &output.to_owned(),
                                 var_id,
-                                depth + 1,
+                                deeper(depth),
                             );
                             Term::pi(new_input, new_output)
                         }
@@ -917,7 +923,7 @@ impl<'a> TermRef<'a> {
                             let new_body = abstract_free_var_as_bound_at_depth(
                                 &body.to_owned(),
                                 var_id,
-                                depth + 1,
+                                deeper(depth),
                             );
                             Term::lambda(new_input, new_body)
                         }
@@ -930,7 +936,7 @@ impl<'a> TermRef<'a> {
                             let new_body = abstract_free_var_as_bound_at_depth(
                                 &body.to_owned(),
                                 var_id,
-                                depth + 1,
+                                deeper(depth),
                             );
                             Term::forall(new_binder_type, new_body)
                         }
@@ -943,7 +949,7 @@ impl<'a> TermRef<'a> {
                             let new_body = abstract_free_var_as_bound_at_depth(
                                 &body.to_owned(),
                                 var_id,
-                                depth + 1,
+                                deeper(depth),
                             );
                             Term::exists(new_binder_type, new_body)
                         }
@@ -2711,13 +2717,13 @@ impl Term {
                 input.to_owned().has_escaping_bound_variable_at_depth(depth)
                     || output
                         .to_owned()
-                        .has_escaping_bound_variable_at_depth(depth + 1)
+                        .has_escaping_bound_variable_at_depth(deeper(depth))
             }
             Decomposition::Lambda(input, body) => {
                 input.to_owned().has_escaping_bound_variable_at_depth(depth)
                     || body
                         .to_owned()
-                        .has_escaping_bound_variable_at_depth(depth + 1)
+                        .has_escaping_bound_variable_at_depth(deeper(depth))
             }
             Decomposition::ForAll(binder_type, body) => {
                 binder_type
@@ -2725,7 +2731,7 @@ impl Term {
                     .has_escaping_bound_variable_at_depth(depth)
                     || body
                         .to_owned()
-                        .has_escaping_bound_variable_at_depth(depth + 1)
+                        .has_escaping_bound_variable_at_depth(deeper(depth))
             }
             Decomposition::Exists(binder_type, body) => {
                 binder_type
@@ -2733,7 +2739,7 @@ impl Term {
                     .has_escaping_bound_variable_at_depth(depth)
                     || body
                         .to_owned()
-                        .has_escaping_bound_variable_at_depth(depth + 1)
+                        .has_escaping_bound_variable_at_depth(deeper(depth))
             }
         }
     }
@@ -3042,14 +3048,19 @@ impl Term {
                         // The type params will be added as outer Pi binders.
                         // At the current depth, we need to skip `depth` binders to reach the type params.
                         // Type param 0 is the outermost, so it's at index (depth + num_type_params - 1 - i)
-                        let bound_id = depth + num_type_params - 1 - *i;
+                        let bound_id = depth
+                            .checked_add(num_type_params - 1 - *i)
+                            .expect("convert_free_to_bound index overflow");
                         Term::atom(Atom::BoundVariable(bound_id))
                     }
                     Atom::BoundVariable(i) if *i >= depth => {
                         // Shift references to outer binders up to make room for the new binders.
                         // Bound variables below the current depth belong to binders inside this term
                         // and must keep referring to those local binders.
-                        Term::atom(Atom::BoundVariable(*i + num_type_params))
+                        Term::atom(Atom::BoundVariable(
+                            i.checked_add(num_type_params)
+                                .expect("convert_free_to_bound index overflow"),
+                        ))
                     }
                     _ => self.clone(),
                 }
@@ -3067,7 +3078,8 @@ impl Term {
                 // Input is at the same depth
                 let new_input = input.convert_free_to_bound_at_depth(num_type_params, depth);
                 // Output is one level deeper due to the Pi's binder
-                let new_output = output.convert_free_to_bound_at_depth(num_type_params, depth + 1);
+                let new_output =
+                    output.convert_free_to_bound_at_depth(num_type_params, deeper(depth));
                 Term::pi(new_input, new_output)
             }
             Decomposition::Lambda(input_ref, body_ref) => {
@@ -3076,7 +3088,7 @@ impl Term {
                 // Input type is at the same depth
                 let new_input = input.convert_free_to_bound_at_depth(num_type_params, depth);
                 // Body is one level deeper due to the Lambda binder
-                let new_body = body.convert_free_to_bound_at_depth(num_type_params, depth + 1);
+                let new_body = body.convert_free_to_bound_at_depth(num_type_params, deeper(depth));
                 Term::lambda(new_input, new_body)
             }
             Decomposition::ForAll(binder_type_ref, body_ref) => {
@@ -3086,7 +3098,7 @@ impl Term {
                 let new_binder_type =
                     binder_type.convert_free_to_bound_at_depth(num_type_params, depth);
                 // Body is one level deeper due to the quantifier binder
-                let new_body = body.convert_free_to_bound_at_depth(num_type_params, depth + 1);
+                let new_body = body.convert_free_to_bound_at_depth(num_type_params, deeper(depth));
                 Term::forall(new_binder_type, new_body)
             }
             Decomposition::Exists(binder_type_ref, body_ref) => {
@@ -3096,7 +3108,7 @@ impl Term {
                 let new_binder_type =
                     binder_type.convert_free_to_bound_at_depth(num_type_params, depth);
                 // Body is one level deeper due to the quantifier binder
-                let new_body = body.convert_free_to_bound_at_depth(num_type_params, depth + 1);
+                let new_body = body.convert_free_to_bound_at_depth(num_type_params, deeper(depth));
                 Term::exists(new_binder_type, new_body)
             }
         };
-- 
2.43.0


From 862d85bae4c9237b06938e07460c217ee78a4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 03/12] fix: least_unused_variable must not wrap to a used
 variable id

---
 src/kernel/term.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/term.rs b/src/kernel/term.rs
index 2fba438..4437bee 100644
--- a/src/kernel/term.rs
+++ b/src/kernel/term.rs
@@ -1122,7 +1122,7 @@ impl<'a> TermRef<'a> {
     /// Get the lowest variable number this term doesn't use.
     pub fn least_unused_variable(&self) -> AtomId {
         match self.max_variable() {
-            Some(max) => max + 1,
+            Some(max) => max.checked_add(1).expect("variable id overflow"),
             None => 0,
         }
     }
-- 
2.43.0


From bc078194ddca2d08e01ee6491fd178e69e9bb5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 04/12] fix: term weights and variable counts must not wrap, or
 the reduction ordering is not stable

---
 src/kernel/term.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/kernel/term.rs b/src/kernel/term.rs
index 4437bee..0acd348 100644
--- a/src/kernel/term.rs
+++ b/src/kernel/term.rs
@@ -1129,9 +1129,9 @@ impl<'a> TermRef<'a> {
 
     /// Calculate multi-weight for KBO ordering.
     /// Returns (weight1, weight2) and populates refcounts with variable usage.
-    fn multi_weight(&self, refcounts: &mut Vec<u8>) -> (u32, u32) {
+    fn multi_weight(&self, refcounts: &mut Vec<u32>) -> (u32, u64) {
         let mut weight1: u32 = 0;
-        let mut weight2: u32 = 0;
+        let mut weight2: u64 = 0;
 
         for component in self.components {
             match component {
@@ -1176,29 +1176,26 @@ impl<'a> TermRef<'a> {
                 }
                 TermComponent::Atom(Atom::Symbol(Symbol::GlobalConstant(m, i))) => {
                     weight1 += 1;
-                    let symbol_weight =
-                        (m.get() as u32).wrapping_mul(65536).wrapping_add(*i as u32);
-                    weight2 = weight2.wrapping_add(4u32.wrapping_mul(symbol_weight));
+                    let symbol_weight = (m.get() as u64) * 65536 + (*i as u64);
+                    weight2 += 4 * symbol_weight;
                 }
                 TermComponent::Atom(Atom::Symbol(Symbol::ScopedConstant(i))) => {
                     weight1 += 1;
-                    weight2 = weight2.wrapping_add(1u32.wrapping_add(4u32.wrapping_mul(*i as u32)));
+                    weight2 += 1 + 4 * (*i as u64);
                 }
                 TermComponent::Atom(Atom::Symbol(Symbol::Type(t))) => {
                     // Type atoms contribute to weight
                     weight1 += 1;
-                    let symbol_weight = (t.module_id().get() as u32)
-                        .wrapping_mul(65536)
-                        .wrapping_add(t.local_id() as u32);
-                    weight2 = weight2.wrapping_add(4u32.wrapping_mul(symbol_weight));
+                    let symbol_weight =
+                        (t.module_id().get() as u64) * 65536 + (t.local_id() as u64);
+                    weight2 += 4 * symbol_weight;
                 }
                 TermComponent::Atom(Atom::Symbol(Symbol::Typeclass(tc))) => {
                     // Typeclass atoms contribute to weight similarly to types
                     weight1 += 1;
-                    let symbol_weight = (tc.module_id().get() as u32)
-                        .wrapping_mul(65536)
-                        .wrapping_add(tc.local_id() as u32);
-                    weight2 = weight2.wrapping_add(4u32.wrapping_mul(symbol_weight));
+                    let symbol_weight =
+                        (tc.module_id().get() as u64) * 65536 + (tc.local_id() as u64);
+                    weight2 += 4 * symbol_weight;
                 }
             }
         }
@@ -3123,7 +3120,7 @@ impl fmt::Display for Term {
 }
 
 /// Helper function for KBO domination check.
-fn dominates(a: &Vec<u8>, b: &Vec<u8>) -> bool {
+fn dominates(a: &Vec<u32>, b: &Vec<u32>) -> bool {
     if b.len() > a.len() {
         return false;
     }
-- 
2.43.0


From 9f18cfab92ebff0f8b3da604418d9dd238154f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 05/12] fix: the extended term comparison must distinguish
 distinct binder terms

---
 src/kernel/term.rs | 74 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 61 insertions(+), 13 deletions(-)

diff --git a/src/kernel/term.rs b/src/kernel/term.rs
index 0acd348..d84cd94 100644
--- a/src/kernel/term.rs
+++ b/src/kernel/term.rs
@@ -1251,15 +1251,45 @@ impl<'a> TermRef<'a> {
             return len_cmp;
         }
 
-        // Compare arguments lexicographically
-        for (arg1, arg2) in self.iter_args().zip(other.iter_args()) {
-            let arg_cmp = arg1.partial_tiebreak(&arg2);
-            if arg_cmp != Ordering::Equal {
-                return arg_cmp;
+        self.partial_tiebreak_parts(other)
+    }
+
+    /// Compare the parts of two terms left to right with the partial tiebreak.
+    fn partial_tiebreak_parts(&self, other: &TermRef) -> std::cmp::Ordering {
+        use std::cmp::Ordering;
+
+        match (self.decompose(), other.decompose()) {
+            (Decomposition::Application(f, a), Decomposition::Application(g, b)) => {
+                let func_cmp = f.partial_tiebreak_parts(&g);
+                if func_cmp != Ordering::Equal {
+                    return func_cmp;
+                }
+                a.partial_tiebreak(&b)
+            }
+            (Decomposition::Pi(t, a), Decomposition::Pi(u, b))
+            | (Decomposition::Lambda(t, a), Decomposition::Lambda(u, b))
+            | (Decomposition::ForAll(t, a), Decomposition::ForAll(u, b))
+            | (Decomposition::Exists(t, a), Decomposition::Exists(u, b)) => {
+                let type_cmp = t.partial_tiebreak(&u);
+                if type_cmp != Ordering::Equal {
+                    return type_cmp;
+                }
+                a.partial_tiebreak(&b)
             }
+            _ => self.structure_rank().cmp(&other.structure_rank()),
         }
+    }
 
-        Ordering::Equal
+    /// An arbitrary ranking of the kinds of node, for tiebreaks.
+    fn structure_rank(&self) -> u8 {
+        match self.decompose() {
+            Decomposition::Atom(_) => 0,
+            Decomposition::Application(_, _) => 1,
+            Decomposition::Pi(_, _) => 2,
+            Decomposition::Lambda(_, _) => 3,
+            Decomposition::ForAll(_, _) => 4,
+            Decomposition::Exists(_, _) => 5,
+        }
     }
 
     /// Total tiebreak for KBO - not stable under variable renaming.
@@ -1274,15 +1304,33 @@ impl<'a> TermRef<'a> {
         // The partial tiebreak should have caught this
         debug_assert!(self.num_args() == other.num_args());
 
-        // Compare arguments lexicographically
-        for (arg1, arg2) in self.iter_args().zip(other.iter_args()) {
-            let arg_cmp = arg1.extended_kbo_cmp(&arg2);
-            if arg_cmp != Ordering::Equal {
-                return arg_cmp;
+        self.total_tiebreak_parts(other)
+    }
+
+    /// Compare the parts of two terms left to right with the extended comparison.
+    fn total_tiebreak_parts(&self, other: &TermRef) -> std::cmp::Ordering {
+        use std::cmp::Ordering;
+
+        match (self.decompose(), other.decompose()) {
+            (Decomposition::Application(f, a), Decomposition::Application(g, b)) => {
+                let func_cmp = f.total_tiebreak_parts(&g);
+                if func_cmp != Ordering::Equal {
+                    return func_cmp;
+                }
+                a.extended_kbo_cmp(&b)
+            }
+            (Decomposition::Pi(t, a), Decomposition::Pi(u, b))
+            | (Decomposition::Lambda(t, a), Decomposition::Lambda(u, b))
+            | (Decomposition::ForAll(t, a), Decomposition::ForAll(u, b))
+            | (Decomposition::Exists(t, a), Decomposition::Exists(u, b)) => {
+                let type_cmp = t.extended_kbo_cmp(&u);
+                if type_cmp != Ordering::Equal {
+                    return type_cmp;
+                }
+                a.extended_kbo_cmp(&b)
             }
+            _ => self.structure_rank().cmp(&other.structure_rank()),
         }
-
-        Ordering::Equal
     }
 
     /// Knuth-Bendix partial reduction ordering.
-- 
2.43.0


From 08330b36677540b5eb2aea5e9db75e663fdfdc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:52 +0000
Subject: [PATCH 06/12] fix: termination checker looks at hidden arguments and
 types

---
 src/elaborator/termination_checker.rs | 84 ++++++++++++++++++++++++++-
 1 file changed, 82 insertions(+), 2 deletions(-)

diff --git a/src/elaborator/termination_checker.rs b/src/elaborator/termination_checker.rs
index a12c699..87b3deb 100644
--- a/src/elaborator/termination_checker.rs
+++ b/src/elaborator/termination_checker.rs
@@ -1,4 +1,5 @@
-use crate::elaborator::acorn_value::AcornValue;
+use crate::elaborator::acorn_type::{AcornType, DependentTypeArg};
+use crate::elaborator::acorn_value::{AcornValue, ConstantInstance};
 use crate::elaborator::names::ConstantName;
 use crate::kernel::atom::AtomId;
 
@@ -16,6 +17,10 @@ pub struct TerminationChecker {
     // always_sub[i] is true if the ith argument to the recursive function is always a *strict*
     // substructure of the original ith argument.
     always_strict_sub: Vec<bool>,
+
+    // Whether we are inside a type. The binders of a function type have their own numbering,
+    // so we can't tell whether a variable inside a type is a substructure of anything.
+    in_type: bool,
 }
 
 impl TerminationChecker {
@@ -26,6 +31,7 @@ impl TerminationChecker {
             name,
             substructure_map,
             always_strict_sub,
+            in_type: false,
         }
     }
 
@@ -41,9 +47,13 @@ impl TerminationChecker {
                     // really say that any of its arguments are always strict any more.
                     self.always_strict_sub = vec![false; self.always_strict_sub.len()];
                 }
+                self.traverse_hidden_args(c);
             }
             AcornValue::TypeApplication(app) => {
                 self.traverse(&app.function);
+                for type_arg in &app.type_args {
+                    self.traverse_type(type_arg);
+                }
             }
             AcornValue::Lambda(arg_types, value)
             | AcornValue::ForAll(arg_types, value)
@@ -53,6 +63,9 @@ impl TerminationChecker {
                 for _ in 0..arg_types.len() {
                     self.substructure_map.push(None);
                 }
+                for arg_type in arg_types {
+                    self.traverse_type(arg_type);
+                }
                 self.traverse(value);
                 self.substructure_map.truncate(stack_size);
             }
@@ -99,12 +112,15 @@ impl TerminationChecker {
                         let arg = &app.args[i];
                         let strict_sub = if let AcornValue::Variable(j, _) = arg {
                             let j = *j as usize;
-                            i != j && self.substructure_map[j] == Some(i as AtomId)
+                            !self.in_type
+                                && i != j
+                                && self.substructure_map[j] == Some(i as AtomId)
                         } else {
                             false
                         };
                         self.always_strict_sub[i] &= strict_sub;
                     }
+                    self.traverse_called_function(app.function.as_ref());
                 } else {
                     self.traverse(app.function.as_ref());
                 }
@@ -131,6 +147,70 @@ impl TerminationChecker {
         }
     }
 
+    // Traverse the implicit parts of the recursive function when it is being called.
+    // These can contain other recursive calls, but the function itself is not one.
+    fn traverse_called_function(&mut self, function: &AcornValue) {
+        match function {
+            AcornValue::Constant(c) => {
+                self.traverse_hidden_args(c);
+            }
+            AcornValue::TypeApplication(app) => {
+                self.traverse_called_function(&app.function);
+                for type_arg in &app.type_args {
+                    self.traverse_type(type_arg);
+                }
+            }
+            _ => {
+                self.traverse(function);
+            }
+        }
+    }
+
+    // The arguments of a constant that aren't part of an application.
+    fn traverse_hidden_args(&mut self, c: &ConstantInstance) {
+        for param in &c.params {
+            self.traverse_type(param);
+        }
+        for arg in &c.bound_value_args {
+            self.traverse(arg);
+        }
+    }
+
+    // Dependent types contain values, so they can contain recursive calls.
+    fn traverse_type(&mut self, acorn_type: &AcornType) {
+        match acorn_type {
+            AcornType::Data(_, params) => {
+                for param in params {
+                    self.traverse_type(param);
+                }
+            }
+            AcornType::Family(_, args) => {
+                for arg in args {
+                    match arg {
+                        DependentTypeArg::Type(t) => self.traverse_type(t),
+                        DependentTypeArg::Value(v) => {
+                            let in_type = self.in_type;
+                            self.in_type = true;
+                            self.traverse(v);
+                            self.in_type = in_type;
+                        }
+                    }
+                }
+            }
+            AcornType::Function(function_type) => {
+                for arg_type in &function_type.arg_types {
+                    self.traverse_type(arg_type);
+                }
+                self.traverse_type(&function_type.return_type);
+            }
+            AcornType::Bool
+            | AcornType::Variable(..)
+            | AcornType::Arbitrary(..)
+            | AcornType::Type0
+            | AcornType::TypeclassConstraint(..) => {}
+        }
+    }
+
     pub fn check(&mut self, value: &AcornValue) -> bool {
         self.traverse(value);
 
-- 
2.43.0


From 8acefe157d1d12731291f534e54995e097b16745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:01 +0000
Subject: [PATCH 07/12] fix: termination checker counts the value parameters of
 a family

---
 src/elaborator/binding_map.rs         |  7 +++++--
 src/elaborator/termination_checker.rs | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/elaborator/binding_map.rs b/src/elaborator/binding_map.rs
index 3d7661c..1cb4565 100644
--- a/src/elaborator/binding_map.rs
+++ b/src/elaborator/binding_map.rs
@@ -2442,8 +2442,11 @@ impl BindingMap {
                 )?;
 
                 if let Some(function_name) = function_name {
-                    let mut checker =
-                        TerminationChecker::new(function_name.clone(), internal_arg_types.len());
+                    let mut checker = TerminationChecker::new(
+                        function_name.clone(),
+                        datatype_value_params.map_or(0, |params| params.len()),
+                        internal_arg_types.len(),
+                    );
                     if !checker.check(&value) {
                         return Err(value_expr
                             .error("the elaborator thinks this looks like an infinite loop"));
diff --git a/src/elaborator/termination_checker.rs b/src/elaborator/termination_checker.rs
index 87b3deb..568631a 100644
--- a/src/elaborator/termination_checker.rs
+++ b/src/elaborator/termination_checker.rs
@@ -9,6 +9,11 @@ pub struct TerminationChecker {
     // The function whose definition we are checking.
     name: ConstantName,
 
+    // The number of variables that come before the arguments of the function.
+    // A method of a family has the value parameters of the family here, so that its
+    // ith argument is x_(num_ambient + i).
+    num_ambient: usize,
+
     // substructure[i] = j if x_i is a ubstructure of x_j, due to match relationships.
     // j is the smallest such j.
     // This includes the non-strict substructures.
@@ -24,11 +29,14 @@ pub struct TerminationChecker {
 }
 
 impl TerminationChecker {
-    pub fn new(name: ConstantName, num_args: usize) -> Self {
-        let substructure_map = (0..num_args).map(|i| Some(i as AtomId)).collect();
+    pub fn new(name: ConstantName, num_ambient: usize, num_args: usize) -> Self {
+        let substructure_map = (0..num_ambient + num_args)
+            .map(|i| Some(i as AtomId))
+            .collect();
         let always_strict_sub = vec![true; num_args];
         TerminationChecker {
             name,
+            num_ambient,
             substructure_map,
             always_strict_sub,
             in_type: false,
@@ -112,9 +120,10 @@ impl TerminationChecker {
                         let arg = &app.args[i];
                         let strict_sub = if let AcornValue::Variable(j, _) = arg {
                             let j = *j as usize;
+                            let original = self.num_ambient + i;
                             !self.in_type
-                                && i != j
-                                && self.substructure_map[j] == Some(i as AtomId)
+                                && original != j
+                                && self.substructure_map[j] == Some(original as AtomId)
                         } else {
                             false
                         };
-- 
2.43.0


From 5b2b703705c11bf0748466c96c98d459676f1a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 08/12] fix: doubly negative positions are not strictly
 positive

---
 src/elaborator/acorn_type.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/elaborator/acorn_type.rs b/src/elaborator/acorn_type.rs
index 2e5d541..7c5b7b8 100644
--- a/src/elaborator/acorn_type.rs
+++ b/src/elaborator/acorn_type.rs
@@ -2215,7 +2215,9 @@ impl AcornType {
     }
 
     /// Computes the variance of a type parameter in this type.
-    /// The `positive` parameter tracks whether we're in a positive or negative position.
+    /// The `positive` parameter tracks whether we're in a strictly positive position.
+    /// Every other position counts as negative. In particular, the left of an arrow that is itself
+    /// on the left of an arrow is negative, because inductive types can't be nested there either.
     /// The `variance_lookup` function provides variance information for nested datatypes.
     pub fn compute_variance_with_lookup<'a, F>(
         &self,
@@ -2247,7 +2249,7 @@ impl AcornType {
                         // Determine the effective polarity based on the nested datatype's variance
                         let arg_positive = if i < variances.len() {
                             match &variances[i] {
-                                Variance::Negative => !positive, // Flip polarity for contravariant
+                                Variance::Negative => false,
                                 Variance::Both => {
                                     // Invariant: param appears in both positions if it's here
                                     let variance = arg.compute_variance_with_lookup(
@@ -2297,12 +2299,12 @@ impl AcornType {
                 combined
             }
             AcornType::Function(ftype) => {
-                // Function arguments are in NEGATIVE position, return is in POSITIVE position
+                // Function arguments are in NEGATIVE position, the return type keeps its position
                 let mut combined = Variance::None;
                 for arg_type in &ftype.arg_types {
                     combined = combined.merge(arg_type.compute_variance_with_lookup(
                         param,
-                        !positive,
+                        false,
                         variance_lookup,
                     ));
                 }
-- 
2.43.0


From 717b661315d4ca88b6e19d368185e923441b56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 09/12] fix: importing a datatype keeps its variances

---
 src/elaborator/binding_map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elaborator/binding_map.rs b/src/elaborator/binding_map.rs
index 1cb4565..7469d38 100644
--- a/src/elaborator/binding_map.rs
+++ b/src/elaborator/binding_map.rs
@@ -3291,6 +3291,9 @@ impl DatatypeDefinition {
                 typename
             )));
         }
+        if self.variances.is_none() {
+            self.variances = info.variances.clone();
+        }
         match (&self.structure_fields, &info.structure_fields) {
             (None, Some(fields)) => {
                 self.structure_fields = Some(fields.clone());
-- 
2.43.0


From 8978eb3aba59cba230640287ce961c60f1a4eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 10/12] fix: strict positivity looks inside datatype families

---
 src/elaborator/acorn_type.rs                  | 112 ++++++++++--------
 src/elaborator/acorn_value.rs                 |   3 +
 src/elaborator/environment/add_statement.rs   |   4 +-
 .../environment/add_statement/datatypes.rs    | 106 +++++++++++++----
 4 files changed, 152 insertions(+), 73 deletions(-)

diff --git a/src/elaborator/acorn_type.rs b/src/elaborator/acorn_type.rs
index 7c5b7b8..2bf53b2 100644
--- a/src/elaborator/acorn_type.rs
+++ b/src/elaborator/acorn_type.rs
@@ -2242,59 +2242,43 @@ impl AcornType {
             }
             AcornType::Data(datatype, type_args) => {
                 let mut combined = Variance::None;
-
-                // If we have variance information for this datatype, use it
-                if let Some(variances) = variance_lookup(datatype) {
-                    for (i, arg) in type_args.iter().enumerate() {
-                        // Determine the effective polarity based on the nested datatype's variance
-                        let arg_positive = if i < variances.len() {
-                            match &variances[i] {
-                                Variance::Negative => false,
-                                Variance::Both => {
-                                    // Invariant: param appears in both positions if it's here
-                                    let variance = arg.compute_variance_with_lookup(
-                                        param,
-                                        true,
-                                        variance_lookup,
-                                    );
-                                    if variance != Variance::None {
-                                        combined = combined.merge(Variance::Both);
-                                    }
-                                    continue;
-                                }
-                                Variance::Positive | Variance::None => positive,
-                            }
-                        } else {
-                            positive
-                        };
-                        combined = combined.merge(arg.compute_variance_with_lookup(
-                            param,
-                            arg_positive,
-                            variance_lookup,
-                        ));
-                    }
-                } else {
-                    // No variance info available, assume covariant
-                    for arg in type_args {
-                        combined = combined.merge(arg.compute_variance_with_lookup(
-                            param,
-                            positive,
-                            variance_lookup,
-                        ));
-                    }
+                for (i, arg) in type_args.iter().enumerate() {
+                    combined = combined.merge(arg.compute_type_arg_variance(
+                        datatype,
+                        i,
+                        param,
+                        positive,
+                        variance_lookup,
+                    ));
                 }
                 combined
             }
-            AcornType::Family(_, args) => {
+            AcornType::Family(datatype, args) => {
+                // Variances are listed for the type arguments only
+                let mut type_arg_index = 0;
                 let mut combined = Variance::None;
                 for arg in args {
-                    if let DependentTypeArg::Type(acorn_type) = arg {
-                        combined = combined.merge(acorn_type.compute_variance_with_lookup(
-                            param,
-                            positive,
-                            variance_lookup,
-                        ));
-                    }
+                    let arg_variance = match arg {
+                        DependentTypeArg::Type(acorn_type) => {
+                            let i = type_arg_index;
+                            type_arg_index += 1;
+                            acorn_type.compute_type_arg_variance(
+                                datatype,
+                                i,
+                                param,
+                                positive,
+                                variance_lookup,
+                            )
+                        }
+                        DependentTypeArg::Value(value) => {
+                            if value.contains_type_var(param) {
+                                Variance::Both
+                            } else {
+                                Variance::None
+                            }
+                        }
+                    };
+                    combined = combined.merge(arg_variance);
                 }
                 combined
             }
@@ -2321,6 +2305,38 @@ impl AcornType {
         }
     }
 
+    /// Computes the variance of a type parameter in a datatype, just counting the ith type argument,
+    /// which is this type.
+    fn compute_type_arg_variance<'a, F>(
+        &self,
+        datatype: &Datatype,
+        i: usize,
+        param: &TypeParam,
+        positive: bool,
+        variance_lookup: &F,
+    ) -> Variance
+    where
+        F: Fn(&Datatype) -> Option<&'a Vec<Variance>>,
+    {
+        // Determine the effective polarity based on the nested datatype's variance.
+        // If no variance info is available, assume covariant.
+        match variance_lookup(datatype).and_then(|variances| variances.get(i)) {
+            Some(Variance::Negative) => {
+                self.compute_variance_with_lookup(param, false, variance_lookup)
+            }
+            Some(Variance::Both) => {
+                // Invariant: param appears in both positions if it's here
+                match self.compute_variance_with_lookup(param, true, variance_lookup) {
+                    Variance::None => Variance::None,
+                    _ => Variance::Both,
+                }
+            }
+            Some(Variance::Positive) | Some(Variance::None) | None => {
+                self.compute_variance_with_lookup(param, positive, variance_lookup)
+            }
+        }
+    }
+
     /// Computes the variance of a type parameter in this type.
     /// The `positive` parameter tracks whether we're in a positive or negative position.
     /// This version does NOT look up variance for nested datatypes.
diff --git a/src/elaborator/acorn_value.rs b/src/elaborator/acorn_value.rs
index 48dd30b..93f66cc 100644
--- a/src/elaborator/acorn_value.rs
+++ b/src/elaborator/acorn_value.rs
@@ -3123,6 +3123,9 @@ impl AcornValue {
             AcornValue::Constant(c) => {
                 c.instance_type.contains_type_var(param)
                     || c.params.iter().any(|t| t.contains_type_var(param))
+                    || c.bound_value_args
+                        .iter()
+                        .any(|x| x.contains_type_var(param))
             }
             AcornValue::Bool(_) => false,
         }
diff --git a/src/elaborator/environment/add_statement.rs b/src/elaborator/environment/add_statement.rs
index 00a9489..0ecfaaa 100644
--- a/src/elaborator/environment/add_statement.rs
+++ b/src/elaborator/environment/add_statement.rs
@@ -3,8 +3,8 @@ use std::sync::Arc;
 use tower_lsp::lsp_types::Range;
 
 use crate::elaborator::acorn_type::{
-    AcornType, Datatype, FamilyParam, FamilyParamKind, Telescope, TypeParam, Typeclass,
-    TypeclassInstance, ValueParam, Variance,
+    AcornType, Datatype, DependentTypeArg, FamilyParam, FamilyParamKind, Telescope, TypeParam,
+    Typeclass, TypeclassInstance, ValueParam, Variance,
 };
 use crate::elaborator::acorn_value::{AcornValue, BinaryOp};
 use crate::elaborator::binding_map::ConstructorInfo;
diff --git a/src/elaborator/environment/add_statement/datatypes.rs b/src/elaborator/environment/add_statement/datatypes.rs
index 0d51715..67e6d88 100644
--- a/src/elaborator/environment/add_statement/datatypes.rs
+++ b/src/elaborator/environment/add_statement/datatypes.rs
@@ -983,34 +983,46 @@ impl Environment {
         match arg_type {
             AcornType::Data(datatype, type_args) => {
                 for (i, arg) in type_args.iter().enumerate() {
-                    if self.contains_inductive_type(arg, inductive_type, inductive_params) {
-                        if let Some(variances) = self.bindings.get_datatype_variances(datatype) {
-                            if i < variances.len() {
-                                match &variances[i] {
-                                    Variance::Negative | Variance::Both => {
-                                        return Err(source.error(&format!(
-                                            "inductive type appears in negative position (via type {})",
-                                            datatype.name
-                                        )));
-                                    }
-                                    Variance::Positive | Variance::None => {
-                                        self.check_strict_positivity(
-                                            arg,
-                                            inductive_type,
-                                            inductive_params,
-                                            source,
-                                        )?;
-                                    }
-                                }
-                            }
-                        } else {
-                            self.check_strict_positivity(
-                                arg,
+                    self.check_type_arg_positivity(
+                        datatype,
+                        i,
+                        arg,
+                        inductive_type,
+                        inductive_params,
+                        source,
+                    )?;
+                }
+                Ok(())
+            }
+            AcornType::Family(datatype, args) => {
+                // Variances are listed for the type arguments only
+                let mut type_arg_index = 0;
+                for arg in args {
+                    match arg {
+                        DependentTypeArg::Type(t) => {
+                            let i = type_arg_index;
+                            type_arg_index += 1;
+                            self.check_type_arg_positivity(
+                                datatype,
+                                i,
+                                t,
                                 inductive_type,
                                 inductive_params,
                                 source,
                             )?;
                         }
+                        DependentTypeArg::Value(value) => {
+                            if self.value_contains_inductive_type(
+                                value,
+                                inductive_type,
+                                inductive_params,
+                            ) {
+                                return Err(source.error(&format!(
+                                    "inductive type appears in a value argument of type {}",
+                                    datatype.name
+                                )));
+                            }
+                        }
                     }
                 }
                 Ok(())
@@ -1034,6 +1046,32 @@ impl Environment {
         }
     }
 
+    /// Check that an inductive type appears only in strictly positive positions in the ith type
+    /// argument of a datatype.
+    fn check_type_arg_positivity(
+        &self,
+        datatype: &Datatype,
+        i: usize,
+        arg: &AcornType,
+        inductive_type: &AcornType,
+        inductive_params: &[AcornType],
+        source: &dyn ErrorContext,
+    ) -> error::Result<()> {
+        if !self.contains_inductive_type(arg, inductive_type, inductive_params) {
+            return Ok(());
+        }
+        let variances = self.bindings.get_datatype_variances(datatype);
+        match variances.and_then(|variances| variances.get(i)) {
+            Some(Variance::Negative) | Some(Variance::Both) => Err(source.error(&format!(
+                "inductive type appears in negative position (via type {})",
+                datatype.name
+            ))),
+            Some(Variance::Positive) | Some(Variance::None) | None => {
+                self.check_strict_positivity(arg, inductive_type, inductive_params, source)
+            }
+        }
+    }
+
     /// Helper to check if a type contains the inductive type being defined.
     fn contains_inductive_type(
         &self,
@@ -1064,7 +1102,29 @@ impl Environment {
                         inductive_params,
                     )
             }
+            AcornType::Family(_, args) => args.iter().any(|arg| match arg {
+                DependentTypeArg::Type(t) => {
+                    self.contains_inductive_type(t, inductive_type, inductive_params)
+                }
+                DependentTypeArg::Value(value) => {
+                    self.value_contains_inductive_type(value, inductive_type, inductive_params)
+                }
+            }),
             _ => false,
         }
     }
+
+    /// Helper to check if a value mentions the inductive type being defined.
+    fn value_contains_inductive_type(
+        &self,
+        value: &AcornValue,
+        inductive_type: &AcornType,
+        inductive_params: &[AcornType],
+    ) -> bool {
+        let mut found = false;
+        value.for_each_type(&mut |t: &AcornType| {
+            found = found || self.contains_inductive_type(t, inductive_type, inductive_params);
+        });
+        found
+    }
 }
-- 
2.43.0


From cd1825f0ea77fe5ce7eb0ac89ead73a2b8172c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:01 +0000
Subject: [PATCH 11/12] fix: variances of an inductive type are a fixed point

---
 .../environment/add_statement/datatypes.rs    | 62 ++++++++++++++-----
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/elaborator/environment/add_statement/datatypes.rs b/src/elaborator/environment/add_statement/datatypes.rs
index 67e6d88..b8dacde 100644
--- a/src/elaborator/environment/add_statement/datatypes.rs
+++ b/src/elaborator/environment/add_statement/datatypes.rs
@@ -659,27 +659,16 @@ impl Environment {
             return Err(statement.error("inductive type must have a base case"));
         }
 
-        let variances = type_params
-            .iter()
-            .map(|param| {
-                let mut combined = Variance::None;
-                for (_, type_list, _) in &constructors {
-                    for arg_type in type_list {
-                        combined = combined.merge(arg_type.compute_variance_with_lookup(
-                            param,
-                            true,
-                            &|dt| self.bindings.get_datatype_variances(dt),
-                        ));
-                    }
-                }
-                combined
-            })
-            .collect::<Vec<_>>();
-
         let datatype_for_variance = Datatype {
             module_id: self.module_id,
             name: inductive_statement.name_token.text().to_string(),
         };
+        let constructor_arg_types: Vec<&AcornType> = constructors
+            .iter()
+            .flat_map(|(_, type_list, _)| type_list)
+            .collect();
+        let variances =
+            self.inductive_variances(&datatype_for_variance, &type_params, &constructor_arg_types);
         self.bindings
             .set_datatype_variances(&datatype_for_variance, variances);
         self.bindings
@@ -972,6 +961,45 @@ impl Environment {
         Ok(())
     }
 
+    /// Computes the variances of an inductive type, given the argument types of its constructors.
+    /// These types can use the inductive type itself, so we need a fixed point.
+    fn inductive_variances(
+        &self,
+        datatype: &Datatype,
+        type_params: &[TypeParam],
+        arg_types: &[&AcornType],
+    ) -> Vec<Variance> {
+        let mut variances = vec![Variance::None; type_params.len()];
+        loop {
+            let mut changed = false;
+            let mut next = vec![];
+            for (i, param) in type_params.iter().enumerate() {
+                let mut combined = variances[i].clone();
+                for arg_type in arg_types {
+                    combined = combined.merge(arg_type.compute_variance_with_lookup(
+                        param,
+                        true,
+                        &|dt| {
+                            if dt == datatype {
+                                Some(&variances)
+                            } else {
+                                self.bindings.get_datatype_variances(dt)
+                            }
+                        },
+                    ));
+                }
+                if combined != variances[i] {
+                    changed = true;
+                }
+                next.push(combined);
+            }
+            if !changed {
+                return next;
+            }
+            variances = next;
+        }
+    }
+
     /// Check that an inductive type appears only in strictly positive positions.
     fn check_strict_positivity(
         &self,
-- 
2.43.0


From 5a458cc862c8cff09ae4776abec3de86ad9d7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:23 +0000
Subject: [PATCH 12/12] fix: extensionality keeps a variable that the type of a
 remaining variable mentions

---
 src/kernel/clause.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/kernel/clause.rs b/src/kernel/clause.rs
index f0e10cd..2652b7a 100644
--- a/src/kernel/clause.rs
+++ b/src/kernel/clause.rs
@@ -913,6 +913,18 @@ impl Clause {
                         break; // Var appears in prefix, stop peeling
                     }
 
+                    // A variable that stays may not have a type that mentions this one
+                    let var_in_kept_type = (0..self.context.len()).any(|v| {
+                        !peeled_vars.contains(&(v as AtomId))
+                            && self
+                                .context
+                                .get_var_type(v)
+                                .is_some_and(|t| t.has_variable(var_id))
+                    });
+                    if var_in_kept_type {
+                        break;
+                    }
+
                     peeled_vars.insert(var_id);
                     peel_count += 1;
                 }
-- 
2.43.0

