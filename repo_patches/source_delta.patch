From d29c91962941ea9935b49cb34bdfcf3761a2e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 01/15] fix: look up directly defined moves by their exact
 amount

The exact match for `def.moves` repeated the amount-1 lookup, so a puzzle
that only defines e.g. `y2` reported that `y2` does not exist.
---
 cubing_core/src/kpuzzle/packed/lookup_move.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/lookup_move.rs b/cubing_core/src/kpuzzle/packed/lookup_move.rs
index 35a6a90..31fed28 100644
--- a/cubing_core/src/kpuzzle/packed/lookup_move.rs
+++ b/cubing_core/src/kpuzzle/packed/lookup_move.rs
@@ -44,7 +44,7 @@ pub(crate) fn lookup_move<'a>(
         };
     }
     // Exact match (e.g. y2 on clock)
-    if let Some((key_move, source)) = def.moves.get_key_value(&r#move_with_amount_1(r#move)) {
+    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
         return Some(MoveLookupResult {
             key_move,
             relative_amount: 1,
-- 
2.43.0


From e4c7fccc7351dbe578668249b9cd9e5d97b307ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 02/15] fix: keep the move prefix in `parse_move!`

`parse_move!("2R'")` expanded to the move `R'`.
---
 cubing_macros/src/lib.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cubing_macros/src/lib.rs b/cubing_macros/src/lib.rs
index 6ba1880..cd59bab 100644
--- a/cubing_macros/src/lib.rs
+++ b/cubing_macros/src/lib.rs
@@ -1,7 +1,7 @@
 // TODO: report errors better.
 // Maybe use https://docs.rs/proc-macro-error/latest/proc_macro_error/ ?
 
-use cubing_core::alg::{Alg, Move};
+use cubing_core::alg::{Alg, Move, MovePrefix};
 
 use proc_macro::TokenStream;
 use quote::quote;
@@ -29,12 +29,29 @@ pub fn parse_move(item: TokenStream) -> TokenStream {
     match move_string.parse::<Move>() {
         Ok(r#move) => {
             let move_family = &r#move.quantum.family;
+            let move_prefix = match &r#move.quantum.prefix {
+                None => quote! { None },
+                Some(MovePrefix::Layer(move_layer)) => {
+                    let layer = move_layer.layer;
+                    quote! { Some(cubing::alg::MovePrefix::Layer(cubing::alg::MoveLayer {
+                        layer: #layer,
+                    })) }
+                }
+                Some(MovePrefix::Range(move_range)) => {
+                    let outer_layer = move_range.outer_layer;
+                    let inner_layer = move_range.inner_layer;
+                    quote! { Some(cubing::alg::MovePrefix::Range(cubing::alg::MoveRange {
+                        outer_layer: #outer_layer,
+                        inner_layer: #inner_layer,
+                    })) }
+                }
+            };
             let move_amount = r#move.amount;
             // TODO: can we avoid constructing the move from scratch every time?
             quote! { cubing::alg::Move {
                 quantum: std::sync::Arc::new(cubing::alg::QuantumMove {
                     family: String::from(#move_family),
-                    prefix: None,
+                    prefix: #move_prefix,
                 }),
                 amount: #move_amount,
             } }
-- 
2.43.0


From 45be3a5a27eb7f97c4b07c2a5ace59aa1f4e380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 03/15] fix: report bad `KTransformation` JSON as
 `InvalidKTransformationData`

---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index a7993aa..bd6f88e 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -83,8 +83,8 @@ impl KTransformation {
         let ktransformation_data: KTransformationData = match serde_json::from_slice(json_bytes) {
             Ok(ktransformation_data) => ktransformation_data,
             Err(e) => {
-                return Err(ConversionError::InvalidKPatternData(
-                    super::InvalidKPatternDataError {
+                return Err(ConversionError::InvalidKTransformationData(
+                    super::InvalidKTransformationDataError {
                         description: format!(
                             "Could not parse JSON for KTransformation data: {}",
                             e
-- 
2.43.0


From 9c481290b4c663a00205dbae78b344de98162ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 04/15] fix: do not report `InvalidAlgError` as its own source

Walking the error chain of any invalid alg never terminated.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 6080d37..af1b8b9 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -83,11 +83,7 @@ pub enum InvalidAlgError {
     InvalidMove(InvalidMoveError),
 }
 
-impl Error for InvalidAlgError {
-    fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
-    }
-}
+impl Error for InvalidAlgError {}
 
 fn identity_transformation(kpuzzle: &KPuzzle) -> KTransformation {
     let mut packed_orbit_data =
-- 
2.43.0


From aed882216d41f2d7c8b61bc2df8abe9878a175b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 05/15] fix: print every parsable move in a form that parses
 back to it

Printing `_SLASH_2` or `R_PLUSPLUS_2` failed (so `.to_string()` panicked),
`2_SLASH_` lost its prefix, and `_PLUS_` and `_PLUSPLUS_` were printed as
`1+` and `++`, which are not moves.
---
 cubing_core/src/alg/move.rs | 46 ++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/cubing_core/src/alg/move.rs b/cubing_core/src/alg/move.rs
index 83c2372..9def307 100644
--- a/cubing_core/src/alg/move.rs
+++ b/cubing_core/src/alg/move.rs
@@ -70,18 +70,24 @@ impl<'de> Visitor<'de> for MoveVisitor {
     }
 }
 
+/// Returns the (non-empty) family that is left without the given internal suffix.
+fn special_family<'a>(family: &'a str, internal_suffix: &str) -> Option<&'a str> {
+    family
+        .strip_suffix(internal_suffix)
+        .filter(|family| !family.is_empty())
+}
+
 impl fmt::Display for Move {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // TODO: memoize these calculations at construction time so we don't have to do it during every serialization?
-        if self.quantum.family == "_SLASH_" {
-            if self.amount != 1 {
-                return Err(std::fmt::Error);
-            };
+        // Special notations are only used when they can represent the whole
+        // move. All other moves are written out in full below.
+        if self.quantum.family == "_SLASH_" && self.quantum.prefix.is_none() && self.amount == 1 {
             write!(f, "/")?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUS_") {
+        if let Some(family) = special_family(&self.quantum.family, "_PLUS_") {
             let suffix = if self.amount < 0 { "-" } else { "+" };
             write!(
                 f,
@@ -95,22 +101,24 @@ impl fmt::Display for Move {
             )?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUSPLUS_") {
+        if let Some(family) = special_family(&self.quantum.family, "_PLUSPLUS_") {
             let suffix = match self.amount {
-                1 => "++",
-                -1 => "--",
-                _ => return Err(std::fmt::Error),
+                1 => Some("++"),
+                -1 => Some("--"),
+                _ => None,
             };
-            write!(
-                f,
-                "{}{}",
-                QuantumMove {
-                    family: family.to_owned(),
-                    prefix: self.quantum.prefix.clone()
-                },
-                suffix
-            )?;
-            return Ok(());
+            if let Some(suffix) = suffix {
+                write!(
+                    f,
+                    "{}{}",
+                    QuantumMove {
+                        family: family.to_owned(),
+                        prefix: self.quantum.prefix.clone()
+                    },
+                    suffix
+                )?;
+                return Ok(());
+            }
         }
         write!(f, "{}", self.quantum)?;
         fmt_amount(f, self.amount)
-- 
2.43.0


From 8404fd62c6bcc548c0f0a764e3f9fc0c46d37ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 06/15] fix: keep the parentheses of a grouping such as `([R,
 U])`

It was printed as `[R, U]`, which parses to a commutator.
---
 cubing_core/src/alg/grouping.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 7e53cc8..68946a7 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -48,10 +48,12 @@ impl fmt::Display for Grouping {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut include_parentheses = true;
         if self.alg.nodes.len() == 1 {
-            include_parentheses = !matches!(
-                self.alg.nodes[0],
-                super::AlgNode::CommutatorNode(_) | super::AlgNode::ConjugateNode(_)
-            )
+            // Without an amount, the parentheses are all that marks the grouping.
+            include_parentheses = self.amount == 1
+                || !matches!(
+                    self.alg.nodes[0],
+                    super::AlgNode::CommutatorNode(_) | super::AlgNode::ConjugateNode(_)
+                )
         } else if let Some((move_0, move_1)) = self.square1_tuple() {
             // Square-1 notation
             return write!(f, "({}, {})", move_0.amount, move_1.amount);
-- 
2.43.0


From f0ffb5d544d6d472e289961d6f74b5cc83e8e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 07/15] fix: print a line break after a line comment that ends
 a nested alg

The inverse of `(R // foo` + newline + `U)` was printed with the closing
delimiter inside the comment, which does not parse.
---
 cubing_core/src/alg/alg.rs        | 9 +++++++++
 cubing_core/src/alg/commutator.rs | 9 ++++++++-
 cubing_core/src/alg/conjugate.rs  | 9 ++++++++-
 cubing_core/src/alg/grouping.rs   | 2 +-
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/alg/alg.rs b/cubing_core/src/alg/alg.rs
index ae6cb1f..cd79020 100644
--- a/cubing_core/src/alg/alg.rs
+++ b/cubing_core/src/alg/alg.rs
@@ -18,6 +18,15 @@ impl Alg {
         let nodes = self.nodes.iter().rev().map(|m| m.invert()).collect();
         Alg { nodes }
     }
+
+    // Whatever follows a final line comment would become part of the comment
+    // unless it is placed on a new line.
+    pub(crate) fn newline_before_delimiter(&self) -> &'static str {
+        match self.nodes.last() {
+            Some(AlgNode::LineCommentNode(_)) => "\n",
+            _ => "",
+        }
+    }
 }
 
 impl fmt::Display for Alg {
diff --git a/cubing_core/src/alg/commutator.rs b/cubing_core/src/alg/commutator.rs
index 633e58d..593c082 100644
--- a/cubing_core/src/alg/commutator.rs
+++ b/cubing_core/src/alg/commutator.rs
@@ -23,6 +23,13 @@ impl fmt::Display for Commutator {
     // TODO: memoize?
     // TODO: dedup with `Move`?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}, {}]", self.a, self.b)
+        write!(
+            f,
+            "[{}{}, {}{}]",
+            self.a,
+            self.a.newline_before_delimiter(),
+            self.b,
+            self.b.newline_before_delimiter()
+        )
     }
 }
diff --git a/cubing_core/src/alg/conjugate.rs b/cubing_core/src/alg/conjugate.rs
index fb53fac..00ac81f 100644
--- a/cubing_core/src/alg/conjugate.rs
+++ b/cubing_core/src/alg/conjugate.rs
@@ -22,6 +22,13 @@ impl Conjugate {
 impl fmt::Display for Conjugate {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}: {}]", self.a, self.b)
+        write!(
+            f,
+            "[{}{}: {}{}]",
+            self.a,
+            self.a.newline_before_delimiter(),
+            self.b,
+            self.b.newline_before_delimiter()
+        )
     }
 }
diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 68946a7..eb54be4 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -63,7 +63,7 @@ impl fmt::Display for Grouping {
         }
         write!(f, "{}", self.alg)?;
         if include_parentheses {
-            write!(f, ")")?;
+            write!(f, "{})", self.alg.newline_before_delimiter())?;
         }
         fmt_amount(f, self.amount)
     }
-- 
2.43.0


From 81f8352c684b2600e7493066a613841a8bc0bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 08/15] fix: do not write to stderr when an alg does not parse

The details are now part of the returned error.
---
 cubing_core/src/alg/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cubing_core/src/alg/parse.rs b/cubing_core/src/alg/parse.rs
index d8719c4..7178ce2 100644
--- a/cubing_core/src/alg/parse.rs
+++ b/cubing_core/src/alg/parse.rs
@@ -330,10 +330,7 @@ impl FromStr for Alg {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match all_consuming(parse_alg)(s) {
             Ok((_, alg)) => Ok(alg),
-            Err(s) => {
-                eprintln!("Alg parsing error: {}", s);
-                Err("Invalid alg string".into()) // TODO: pass on error
-            }
+            Err(e) => Err(format!("Invalid alg string: {}", e).into()),
         }
     }
 }
-- 
2.43.0


From 10f4e706769124e50f39e9e9523d9e680dd5dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 09/15] fix: invert transformations instead of algs in
 commutators and conjugates

The recursion check for derived moves does not look at inverted algs, so the
accepted definition `A2 = [C2: R]`, `C2 = R`, `C2' = A2` overflowed the stack
once `A2` was applied.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index af1b8b9..4aef60b 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -165,8 +165,8 @@ fn transformation_from_alg_node(
         AlgNode::CommutatorNode(commutator) => {
             let a = transformation_from_alg(kpuzzle, &commutator.a)?;
             let b = transformation_from_alg(kpuzzle, &commutator.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &commutator.a.invert())?; // TODO: invert the transformation instead of the alg!
-            let b_prime = transformation_from_alg(kpuzzle, &commutator.b.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
+            let b_prime = b.invert();
             Ok(a.apply_transformation(&b)
                 .apply_transformation(&a_prime)
                 .apply_transformation(&b_prime))
@@ -174,7 +174,7 @@ fn transformation_from_alg_node(
         AlgNode::ConjugateNode(conjugate) => {
             let a = transformation_from_alg(kpuzzle, &conjugate.a)?;
             let b = transformation_from_alg(kpuzzle, &conjugate.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &conjugate.a.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
             Ok(a.apply_transformation(&b).apply_transformation(&a_prime))
         }
     }
-- 
2.43.0


From 21a35d845df494795f5efe6619409db6f2b02c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 10/15] fix: reject `num_orientations` values that cannot be
 packed

0 and e.g. 72 or 84 panicked (or, without overflow checks, produced wrong
tables) instead of returning an `InvalidDefinitionError`.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs        | 16 ++++++++++++++++
 .../src/kpuzzle/packed/orientation_packer.rs     | 10 ++++++++++
 2 files changed, 26 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 4aef60b..dd5b2dd 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -197,6 +197,22 @@ impl KPuzzle {
             if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                 return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
             }
+            if num_orientations == 0 {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "`num_orientations` for orbit {} must not be 0.",
+                        orbit_definition.orbit_name
+                    ),
+                });
+            }
+            if OrientationPacker::num_packed_values(num_orientations) > u8::MAX as usize {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "`num_orientations` for orbit {} ({}) has too many `orientation_mod` values for the current build.",
+                        orbit_definition.orbit_name, num_orientations
+                    ),
+                });
+            }
             ordered_orbit_info.push({
                 KPuzzleOrbitInfo {
                     name: orbit_definition.orbit_name.clone(),
diff --git a/cubing_core/src/kpuzzle/packed/orientation_packer.rs b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
index ec3d1e5..df2bce5 100644
--- a/cubing_core/src/kpuzzle/packed/orientation_packer.rs
+++ b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
@@ -65,6 +65,16 @@ pub struct OrientationPacker {
 /// efficiently. This replaces arithmetic with simple lookups for `KPattern` logic.
 
 impl OrientationPacker {
+    /// The number of distinct packed values for an orbit. `OrientationPacker`
+    /// only supports orbits for which this fits in a byte.
+    pub fn num_packed_values(num_orientations: u8) -> usize {
+        let num_orientations = num_orientations as usize;
+        let proper: usize = (1..=num_orientations)
+            .filter(|orientation_mod| num_orientations % orientation_mod == 0)
+            .sum();
+        proper + num_orientations
+    }
+
     pub fn new(num_orientations: u8) -> Self {
         let mut unpacking_table: [OrientationWithMod; NUM_BYTE_VALUES] =
             [BOGUS_ORIENTATION_WITH_MOD; NUM_BYTE_VALUES];
-- 
2.43.0


From 3da8055e7619bc473afcf7c390da29a1e0bc3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 11/15] fix: return errors for invalid pattern and
 transformation data

Missing orbits, vectors that are too short and values that are out of range
panicked in functions that return a `Result`, and permutation values that are
out of range were accepted (and later used as unchecked indices).
---
 cubing_core/src/kpuzzle/packed/kpattern.rs    | 35 ++++++++++++++++++-
 cubing_core/src/kpuzzle/packed/kpuzzle.rs     |  7 ++--
 .../src/kpuzzle/packed/ktransformation.rs     | 24 ++++++++++++-
 3 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 55a6f65..f86379f 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -39,8 +39,41 @@ impl KPattern {
                 let default_orbit = kpattern_data.get(&orbit_info.name);
                 let default_orbit = match default_orbit {
                     Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
+                    None => {
+                        return Err(ConversionError::InvalidKPatternData(
+                            format!("Missing data for orbit {}", orbit_info.name).into(),
+                        ))
+                    }
                 };
+                let is_long_enough = |values: &Vec<u8>| values.len() > i as usize;
+                if !is_long_enough(&default_orbit.pieces)
+                    || !is_long_enough(&default_orbit.orientation)
+                    || !default_orbit
+                        .orientation_mod
+                        .as_ref()
+                        .map_or(true, is_long_enough)
+                {
+                    return Err(ConversionError::InvalidKPatternData(
+                        format!("Not enough values for orbit {}", orbit_info.name).into(),
+                    ));
+                }
+                let orientation_mod = default_orbit
+                    .orientation_mod
+                    .as_ref()
+                    .map_or(0, |orientation_mod| orientation_mod[i as usize]);
+                let num_distinct_orientations = match orientation_mod {
+                    0 => orbit_info.num_orientations,
+                    orientation_mod => orientation_mod,
+                };
+                if default_orbit.orientation[i as usize] >= num_distinct_orientations {
+                    return Err(ConversionError::InvalidKPatternData(
+                        format!(
+                            "Orientation at index {} is out of range for orbit {}",
+                            i, orbit_info.name
+                        )
+                        .into(),
+                    ));
+                }
 
                 new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
                 new_kpattern.set_orientation_with_mod(
diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index dd5b2dd..dcf2e57 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -292,8 +292,11 @@ impl KPuzzle {
         let transformation = match move_lookup_result.source {
             // TODO: Avoid constructing this `KTransformation`.
             MoveLookupResultSource::DirectlyDefined(transformation_data) => {
-                KTransformation::try_from_data(self, transformation_data)
-                    .expect("TODO: invalid definition — this should be caught earlier")
+                KTransformation::try_from_data(self, transformation_data).map_err(|e| {
+                    InvalidMoveError {
+                        description: format!("Invalid definition for move {}: {}", key_move, e),
+                    }
+                })?
             }
             MoveLookupResultSource::DerivedFromAlg(alg) => self.transformation_from_alg(alg)?,
         };
diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index bd6f88e..78fa7d8 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -35,8 +35,30 @@ impl KTransformation {
                 let orbit = ktransformation_data.get(&orbit_info.name);
                 let orbit = match orbit {
                     Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
+                    None => {
+                        return Err(ConversionError::InvalidKTransformationData(
+                            format!("Missing data for orbit {}", orbit_info.name).into(),
+                        ))
+                    }
                 };
+                if orbit.permutation.len() <= i as usize
+                    || orbit.orientation_delta.len() <= i as usize
+                {
+                    return Err(ConversionError::InvalidKTransformationData(
+                        format!("Not enough values for orbit {}", orbit_info.name).into(),
+                    ));
+                }
+                if orbit.permutation[i as usize] >= orbit_info.num_pieces
+                    || orbit.orientation_delta[i as usize] >= orbit_info.num_orientations
+                {
+                    return Err(ConversionError::InvalidKTransformationData(
+                        format!(
+                            "Value at index {} is out of range for orbit {}",
+                            i, orbit_info.name
+                        )
+                        .into(),
+                    ));
+                }
 
                 new_ktransformation.set_permutation_idx(
                     orbit_info,
-- 
2.43.0


From 01d2f44de1a46cf45859290211d043840a905daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 12/15] fix: check that packed bytes are only accessed inside
 their allocation

A permutation value from JSON that is out of range, or an orbit, pattern or
transformation of another puzzle, could be used in safe code to read and write
outside the allocation.
---
 cubing_core/src/kpuzzle/packed/ktransformation.rs   | 3 +--
 cubing_core/src/kpuzzle/packed/packed_orbit_data.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index 78fa7d8..537bc58 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -170,10 +170,9 @@ impl KTransformation {
         }
     }
 
-    /// # Safety
-    /// This version does not check whether `i` is in the correct range.
     pub fn set_permutation_idx(&mut self, orbit_info: &KPuzzleOrbitInfo, i: u8, value: u8) {
         assert_lt!(i, orbit_info.num_pieces);
+        assert_lt!(value, orbit_info.num_pieces);
         unsafe { self.set_permutation_idx_unchecked(orbit_info, i, value) }
     }
 
diff --git a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
index a1b84c2..10c2b82 100644
--- a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
+++ b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
@@ -4,7 +4,7 @@ use std::{
     hash::Hash,
 };
 
-use more_asserts::debug_assert_le;
+use more_asserts::{assert_lt, debug_assert_le};
 
 use super::{kpuzzle::KPuzzleOrbitInfo, KPuzzle};
 
@@ -31,7 +31,11 @@ impl PackedOrbitData {
     }
 
     pub(crate) unsafe fn bytes_offset(&self, main_offset: usize, second_offset: u8) -> *mut u8 {
-        self.bytes.add(main_offset + (second_offset as usize))
+        let offset = main_offset + (second_offset as usize);
+        // Safe code can pass an orbit of one puzzle to a pattern or
+        // transformation of another one.
+        assert_lt!(offset, self.kpuzzle.data.num_bytes);
+        self.bytes.add(offset)
     }
 
     pub unsafe fn get_raw_piece_or_permutation_value(&self, orbit: &KPuzzleOrbitInfo, i: u8) -> u8 {
-- 
2.43.0


From 8494f07dcc891e1cb2881f0d8004232566de9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 13/15] fix: do not expose uninitialized bytes when inverting

Inverting a transformation whose permutation is not a bijection left bytes of
the result uninitialized.
---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index 537bc58..a8d9893 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -276,7 +276,8 @@ impl KTransformation {
     }
 
     pub fn invert(&self) -> KTransformation {
-        let mut new_ktransformation = KTransformation::new_uninitialized(self.kpuzzle().clone());
+        // Not all bytes are written below if the permutation is not a bijection.
+        let mut new_ktransformation = self.kpuzzle().identity_transformation();
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             let num_orientations = orbit_info.num_orientations;
 
-- 
2.43.0


From 34861f153ca01abb444be82f9a56faa6b6aba6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 14/15] fix: handle empty puzzles and failed allocations

A puzzle without pieces made a zero-size allocation, and the result of the
allocation was used without a null check.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs           | 8 ++++++--
 cubing_core/src/kpuzzle/packed/packed_orbit_data.rs | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index dcf2e57..221e9f7 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -226,13 +226,17 @@ impl KPuzzle {
             bytes_offset += (orbit_definition.num_pieces as usize) * 2;
         }
 
+        // Allocating 0 bytes is undefined behaviour.
+        let num_allocated_bytes = bytes_offset.max(1);
         Ok(Self {
             data: Arc::new(KPuzzleData {
                 definition,
                 num_bytes: bytes_offset,
                 ordered_orbit_info,
-                layout: Layout::array::<u8>(bytes_offset).map_err(|_| InvalidDefinitionError {
-                    description: "Could not construct packed layout.".to_owned(),
+                layout: Layout::array::<u8>(num_allocated_bytes).map_err(|_| {
+                    InvalidDefinitionError {
+                        description: "Could not construct packed layout.".to_owned(),
+                    }
                 })?,
             }),
         })
diff --git a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
index 10c2b82..d3a5a2f 100644
--- a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
+++ b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
@@ -1,5 +1,5 @@
 use std::{
-    alloc::{alloc, dealloc},
+    alloc::{alloc, dealloc, handle_alloc_error},
     fmt::Debug,
     hash::Hash,
 };
@@ -27,6 +27,9 @@ impl PackedOrbitData {
 
     pub(crate) unsafe fn new_with_uninitialized_bytes(kpuzzle: KPuzzle) -> Self {
         let bytes = unsafe { alloc(kpuzzle.data.layout) };
+        if bytes.is_null() {
+            handle_alloc_error(kpuzzle.data.layout)
+        }
         Self { kpuzzle, bytes }
     }
 
-- 
2.43.0


From 1eeb6c4e3689ba2e4f23a8916ade78a01f135cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:46 +0000
Subject: [PATCH 15/15] fix: kpuzzle_from_json_file needs no serde_json in the
 calling crate

The macro expanded to a bare `serde_json::from_slice`, so it did not compile in a crate
that depends on the facade crate only. The other two macros already use `try_from_json`.
---
 cubing_core/src/kpuzzle/json_macros.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/json_macros.rs b/cubing_core/src/kpuzzle/json_macros.rs
index fc8e327..18c4a13 100644
--- a/cubing_core/src/kpuzzle/json_macros.rs
+++ b/cubing_core/src/kpuzzle/json_macros.rs
@@ -27,9 +27,7 @@ macro_rules! kpuzzle_from_json_file {
           static [<$kpuzzle_name _kpuzzle_cell>]: std::sync::OnceLock<$crate::kpuzzle::KPuzzle> = std::sync::OnceLock::new();
           $visibility fn [<$kpuzzle_name _kpuzzle>]() -> &'static $crate::kpuzzle::KPuzzle {
                 [<$kpuzzle_name _kpuzzle_cell>].get_or_init(|| {
-                    let def: $crate::kpuzzle::KPuzzleDefinition = serde_json::from_slice(include_bytes!($file)).unwrap();
-                    let kpuzzle: $crate::kpuzzle::KPuzzle = def.try_into().unwrap();
-                    kpuzzle
+                    $crate::kpuzzle::KPuzzle::try_from_json(include_bytes!($file)).unwrap()
                 })
             }
         }
-- 
2.43.0

