From 120be43cc60e6b6eb9d9d0a290488b41950149e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:22 +0000
Subject: [PATCH 01/42] fix: take the transitive closure of control
 dependencies

In 'if a { match b { 0 => x = 1, _ => x = 2 } }' with b assigned outside the
conditional, x was not reported to depend on a: only the innermost switch was
added to the dependencies of a mutation.
---
 crates/flowistry/src/infoflow/analysis.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index c02db27..c00cfa3 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -178,10 +178,21 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       }
     }
 
-    // Add location of every control dependency.
-    let controlled_by = self.control_dependencies.dependent_on(location.block);
+    // Add location of every control dependency. A block can be controlled by a switch
+    // that is itself controlled by another switch, so take the transitive closure.
     let body = self.body;
-    for block in controlled_by.into_iter().flat_map(|set| set.iter()) {
+    let mut controlled_by = SmallVec::<[BasicBlock; 8]>::new();
+    let mut worklist = SmallVec::<[BasicBlock; 8]>::from_iter([location.block]);
+    while let Some(block) = worklist.pop() {
+      let direct = self.control_dependencies.dependent_on(block);
+      for parent in direct.into_iter().flat_map(|set| set.iter()) {
+        if !controlled_by.contains(&parent) {
+          controlled_by.push(parent);
+          worklist.push(parent);
+        }
+      }
+    }
+    for block in controlled_by {
       for deps in &mut all_deps {
         deps.insert(body.terminator_loc(block));
       }
-- 
2.43.0


From f8a9e907e29e04989f416f3ce9747383d25ec26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:18 +0000
Subject: [PATCH 02/42] fix: account for index operands as inputs

'y = a[i]' and 'a[i] = y' both depend on i, but the index local was not
reported among the inputs of the mutation.
---
 crates/flowistry/src/infoflow/mutation.rs | 53 +++++++++++++++++++----
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 05fcdd5..5a89db2 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -1,12 +1,14 @@
 //! Identifies the mutated places in a MIR instruction via modular approximation based on types.
 
+use std::iter;
+
 use log::debug;
 use rustc_abi::FieldIdx;
 use rustc_middle::{
   mir::{visit::Visitor, *},
-  ty::{AdtKind, TyKind},
+  ty::{AdtKind, TyCtxt, TyKind},
 };
-use rustc_utils::{AdtDefExt, OperandExt, mir::place::PlaceCollector};
+use rustc_utils::{AdtDefExt, OperandExt, PlaceExt, mir::place::PlaceCollector};
 
 use crate::mir::{
   placeinfo::PlaceInfo,
@@ -49,6 +51,22 @@ where
   place_info: &'a PlaceInfo<'a, 'tcx>,
 }
 
+/// Returns the locals used as an index within `place`, e.g. `i` in `a[i]`.
+///
+/// Both reading from and writing to `a[i]` depend on `i`.
+fn index_locals<'tcx>(
+  place: Place<'tcx>,
+  tcx: TyCtxt<'tcx>,
+) -> impl Iterator<Item = Place<'tcx>> {
+  place
+    .projection
+    .iter()
+    .filter_map(move |elem| match elem {
+      ProjectionElem::Index(local) => Some(Place::from_local(local, tcx)),
+      _ => None,
+    })
+}
+
 impl<'a, 'tcx, F> ModularMutationVisitor<'a, 'tcx, F>
 where
   F: FnMut(Location, Vec<Mutation<'tcx>>),
@@ -119,7 +137,11 @@ where
           let mutations = fields
             .map(|(mutated, input)| Mutation {
               mutated,
-              inputs: input.into_iter().collect::<Vec<_>>(),
+              inputs: input
+                .into_iter()
+                .chain(input.into_iter().flat_map(|place| index_locals(place, tcx)))
+                .chain(index_locals(mutated, tcx))
+                .collect::<Vec<_>>(),
               status: MutationStatus::Definitely,
             })
             .collect::<Vec<_>>();
@@ -142,13 +164,17 @@ where
             .map(|(i, field_def)| {
               PlaceElem::Field(FieldIdx::from_usize(i), field_def.ty(tcx, substs))
             });
+          let indices = index_locals(*place, tcx)
+            .chain(index_locals(*mutated, tcx))
+            .collect::<Vec<_>>();
+          let with_indices = |input| iter::once(input).chain(indices.clone()).collect();
           let mut mutations = fields
             .map(|field| {
               let mutated_field = mutated.project_deeper(&[field], tcx);
               let input_field = place.project_deeper(&[field], tcx);
               Mutation {
                 mutated: mutated_field,
-                inputs: vec![input_field],
+                inputs: with_indices(input_field),
                 status: MutationStatus::Definitely,
               }
             })
@@ -157,7 +183,7 @@ where
           if mutations.is_empty() {
             mutations.push(Mutation {
               mutated: *mutated,
-              inputs: vec![*place],
+              inputs: with_indices(*place),
               status: MutationStatus::Definitely,
             });
           }
@@ -171,9 +197,16 @@ where
 
     let mut collector = PlaceCollector::default();
     collector.visit_rvalue(rvalue, location);
+    let mut inputs = collector.0;
+    let indices = inputs
+      .iter()
+      .chain([mutated])
+      .flat_map(|place| index_locals(*place, tcx))
+      .collect::<Vec<_>>();
+    inputs.extend(indices);
     (self.f)(location, vec![Mutation {
       mutated: *mutated,
-      inputs: collector.0,
+      inputs,
       status: MutationStatus::Definitely,
     }]);
   }
@@ -199,17 +232,21 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        let arg_inputs = arg_places.clone();
+        let arg_inputs = arg_places
+          .iter()
+          .flat_map(|place| iter::once(*place).chain(index_locals(*place, tcx)))
+          .collect::<Vec<_>>();
 
         let ret_is_unit = destination
           .ty(self.place_info.body.local_decls(), tcx)
           .ty
           .is_unit();
-        let inputs = if ret_is_unit {
+        let mut inputs = if ret_is_unit {
           Vec::new()
         } else {
           arg_inputs.clone()
         };
+        inputs.extend(index_locals(*destination, tcx));
 
         let mut mutations = vec![Mutation {
           mutated: *destination,
-- 
2.43.0


From 34a19447201ead43e643acff64023a7a8c868b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:33 +0000
Subject: [PATCH 03/42] fix: do not strongly update an array through one of its
 elements

After 'a[0] = x; a[1] = y' the dependencies of a[0] lost x, because all the
elements share one normalized place, which the second write cleared.
---
 crates/flowistry/src/infoflow/analysis.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index c00cfa3..99ca5f6 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -212,7 +212,18 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       // Clear sub-places of mutated place (if sound to do so)
+      // Writing to one element of an array leaves the other elements as they were, and all
+      // elements share the same normalized place.
+      let is_element = mt.mutated.projection.iter().any(|elem| {
+        matches!(
+          elem,
+          ProjectionElem::Index(..)
+            | ProjectionElem::ConstantIndex { .. }
+            | ProjectionElem::Subslice { .. }
+        )
+      });
       if matches!(mt.status, MutationStatus::Definitely)
+        && !is_element
         && self.place_info.aliases(mt.mutated).len() == 1
       {
         for sub in self.place_info.children(mt.mutated).iter() {
-- 
2.43.0


From 17580df007f21b90380cc8629700b84e727cc8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 04/42] fix: depend on the callee when calling a function
 pointer

In 'f(x)' with f: fn(i32) -> i32, the result and the effects of the call
depend on f, which was not among the inputs.
---
 crates/flowistry/src/infoflow/mutation.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 5a89db2..16ec077 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -217,7 +217,7 @@ where
 
     match &terminator.kind {
       TerminatorKind::Call {
-        /*func,*/ // TODO: deal with func
+        func,
         args,
         destination,
         ..
@@ -232,8 +232,11 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        let arg_inputs = arg_places
+        // If the callee is a function pointer, then the effects depend on its value.
+        let arg_inputs = func
+          .as_place()
           .iter()
+          .chain(&arg_places)
           .flat_map(|place| iter::once(*place).chain(index_locals(*place, tcx)))
           .collect::<Vec<_>>();
 
-- 
2.43.0


From 5807be54b72e6ce783f1dbb537c980905b9dc2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:23 +0000
Subject: [PATCH 05/42] fix: number struct fields correctly when some are
 inaccessible

For 'struct S { x: i32, pub y: i32 }' used outside of its module, the field y
was taken to be s.0 (its index among the visible fields), so moving or copying
an S lost the dependencies of s.y, and those of the private fields.
---
 crates/flowistry/src/infoflow/mutation.rs | 40 ++++++-----
 crates/flowistry/src/mir/aliases.rs       |  6 +-
 crates/flowistry/src/mir/placeinfo.rs     | 12 ++--
 crates/flowistry/src/mir/utils.rs         | 85 +++++++++++++++++++++--
 crates/flowistry_ifc/src/analysis.rs      |  7 +-
 5 files changed, 117 insertions(+), 33 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 16ec077..174f018 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -8,7 +8,7 @@ use rustc_middle::{
   mir::{visit::Visitor, *},
   ty::{AdtKind, TyCtxt, TyKind},
 };
-use rustc_utils::{AdtDefExt, OperandExt, PlaceExt, mir::place::PlaceCollector};
+use rustc_utils::{OperandExt, PlaceExt, mir::place::PlaceCollector};
 
 use crate::mir::{
   placeinfo::PlaceInfo,
@@ -158,35 +158,37 @@ where
         if let TyKind::Adt(adt_def, substs) = place_ty.kind()
           && adt_def.is_struct()
         {
-          let fields = adt_def
-            .all_visible_fields(self.place_info.def_id, self.place_info.tcx)
-            .enumerate()
-            .map(|(i, field_def)| {
-              PlaceElem::Field(FieldIdx::from_usize(i), field_def.ty(tcx, substs))
-            });
+          let visible =
+            utils::visible_fields(*adt_def, self.place_info.def_id, tcx).collect::<Vec<_>>();
+          let all_visible = visible.len() == adt_def.non_enum_variant().fields.len();
+          let no_fields = visible.is_empty();
+          let fields = visible
+            .into_iter()
+            .map(|(i, field_def)| PlaceElem::Field(i, field_def.ty(tcx, substs)));
           let indices = index_locals(*place, tcx)
             .chain(index_locals(*mutated, tcx))
             .collect::<Vec<_>>();
           let with_indices = |input| iter::once(input).chain(indices.clone()).collect();
-          let mut mutations = fields
-            .map(|field| {
-              let mutated_field = mutated.project_deeper(&[field], tcx);
-              let input_field = place.project_deeper(&[field], tcx);
-              Mutation {
-                mutated: mutated_field,
-                inputs: with_indices(input_field),
-                status: MutationStatus::Definitely,
-              }
-            })
-            .collect::<Vec<_>>();
+          let field_mutations = fields.map(|field| {
+            let mutated_field = mutated.project_deeper(&[field], tcx);
+            let input_field = place.project_deeper(&[field], tcx);
+            Mutation {
+              mutated: mutated_field,
+              inputs: with_indices(input_field),
+              status: MutationStatus::Definitely,
+            }
+          });
 
-          if mutations.is_empty() {
+          let mut mutations = Vec::new();
+          // Inaccessible fields have no place of their own, so they belong to the whole struct.
+          if !all_visible || no_fields {
             mutations.push(Mutation {
               mutated: *mutated,
               inputs: with_indices(*place),
               status: MutationStatus::Definitely,
             });
           }
+          mutations.extend(field_mutations);
           (self.f)(location, mutations);
           return;
         }
diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 84104e7..984539c 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -22,7 +22,7 @@ use rustc_utils::{PlaceExt, mir::place::UNKNOWN_REGION, timer::elapsed};
 
 use crate::{
   extensions::{PointerMode, is_extension_active},
-  mir::utils::{AsyncHack, PlaceSet},
+  mir::utils::{self, AsyncHack, PlaceSet},
 };
 
 type BorrowckLocationIndex =
@@ -122,7 +122,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
       .local_decls()
       .indices()
       .flat_map(|local| {
-        Place::from_local(local, tcx).interior_pointers(tcx, body, def_id)
+        utils::interior_pointers(Place::from_local(local, tcx), tcx, body, def_id)
       })
       .collect::<Vec<_>>();
     let max_region = all_pointers
@@ -210,7 +210,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     // For all args p : &'a ω T where 'a is abstract: contains('a, *p, ω).
     for arg in body.args_iter() {
       for (region, places) in
-        Place::from_local(arg, tcx).interior_pointers(tcx, body, def_id)
+        utils::interior_pointers(Place::from_local(arg, tcx), tcx, body, def_id)
       {
         let region_contains = contains.entry(region).or_default();
         for (place, mutability) in places {
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index c3bb4a4..c9a6d14 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -23,7 +23,10 @@ use rustc_utils::{
   },
 };
 
-use super::{aliases::Aliases, utils::PlaceSet};
+use super::{
+  aliases::Aliases,
+  utils::{self, PlaceSet},
+};
 use crate::extensions::{MutabilityMode, is_extension_active};
 
 /// Utilities for analyzing places: children, aliases, etc.
@@ -100,7 +103,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
   ///
   /// For example, if `x = (0, 1)` then `children(x) = {x, x.0, x.1}`.
   pub fn children(&self, place: Place<'tcx>) -> PlaceSet<'tcx> {
-    PlaceSet::from_iter(place.interior_places(self.tcx, self.body, self.def_id))
+    utils::interior_places(place, self.tcx, self.body, self.def_id)
   }
 
   /// Returns all places that *directly* conflict with `place`, i.e. that a mutation to `place`
@@ -182,8 +185,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
     self.body.args_iter().flat_map(|local| {
       let location = local.to_index(&self.location_domain);
       let place = Place::from_local(local, self.tcx);
-      let ptrs = place
-        .interior_pointers(self.tcx, self.body, self.def_id)
+      let ptrs = utils::interior_pointers(place, self.tcx, self.body, self.def_id)
         .into_values()
         .flat_map(|ptrs| {
           ptrs
@@ -193,7 +195,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         });
       ptrs
         .chain([place])
-        .flat_map(|place| place.interior_places(self.tcx, self.body, self.def_id))
+        .flat_map(|place| self.children(place))
         .map(move |place| (place, location))
     })
   }
diff --git a/crates/flowistry/src/mir/utils.rs b/crates/flowistry/src/mir/utils.rs
index 02b7043..8b3e34d 100644
--- a/crates/flowistry/src/mir/utils.rs
+++ b/crates/flowistry/src/mir/utils.rs
@@ -1,13 +1,15 @@
 //! A potpourri of utilities for working with the MIR, primarily exposed as extension traits.
 
-use rustc_data_structures::fx::FxHashSet as HashSet;
+use rustc_abi::FieldIdx;
+use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
 use rustc_hir::def_id::DefId;
 use rustc_middle::{
   mir::*,
-  ty::{GenericArgKind, RegionKind, RegionVid, Ty, TyCtxt},
+  ty::{AdtDef, FieldDef, GenericArgKind, RegionKind, RegionVid, Ty, TyCtxt, TyKind},
 };
 use rustc_span::source_map::Spanned;
 use rustc_utils::{BodyExt, OperandExt, PlaceExt};
+use smallvec::SmallVec;
 
 use crate::extensions::{MutabilityMode, is_extension_active};
 
@@ -18,6 +20,82 @@ use crate::extensions::{MutabilityMode, is_extension_active};
 /// [`Place`]s that was not "every possible place in the body".
 pub type PlaceSet<'tcx> = HashSet<Place<'tcx>>;
 
+/// Returns the fields of the struct `adt_def` accessible from `def_id`, along with their indices.
+pub(crate) fn visible_fields<'tcx>(
+  adt_def: AdtDef<'tcx>,
+  def_id: DefId,
+  tcx: TyCtxt<'tcx>,
+) -> impl Iterator<Item = (FieldIdx, &'tcx FieldDef)> {
+  adt_def
+    .non_enum_variant()
+    .fields
+    .iter_enumerated()
+    .filter(move |(_, field)| field.vis.is_accessible_from(def_id, tcx))
+}
+
+/// Corrects the fields in a place generated by [`PlaceExt::interior_places`] or
+/// [`PlaceExt::interior_pointers`] for a place with `base_len` projections.
+///
+/// Those methods number the fields of a struct without counting its inaccessible fields.
+/// For `struct S { x: i32, pub y: i32 }`, they would name the field `y` as `s.0` outside of
+/// the module that defines `S`.
+fn correct_fields<'tcx>(
+  place: Place<'tcx>,
+  base_len: usize,
+  tcx: TyCtxt<'tcx>,
+  body: &Body<'tcx>,
+  def_id: DefId,
+) -> Place<'tcx> {
+  let mut ty = PlaceTy::from_ty(body.local_decls()[place.local].ty);
+  let mut projection = SmallVec::<[PlaceElem<'tcx>; 8]>::new();
+  for (i, elem) in place.projection.iter().enumerate() {
+    let corrected = match (elem, ty.ty.kind()) {
+      (ProjectionElem::Field(field, field_ty), TyKind::Adt(adt_def, _))
+        if i >= base_len && adt_def.is_struct() && !ty.ty.is_box() =>
+      {
+        match visible_fields(*adt_def, def_id, tcx).nth(field.as_usize()) {
+          Some((index, _)) => ProjectionElem::Field(index, field_ty),
+          None => elem,
+        }
+      }
+      _ => elem,
+    };
+    projection.push(corrected);
+    ty = ty.projection_ty(tcx, elem);
+  }
+  Place::make(place.local, &projection, tcx)
+}
+
+/// [`PlaceExt::interior_places`] with the right field indices.
+pub fn interior_places<'tcx>(
+  place: Place<'tcx>,
+  tcx: TyCtxt<'tcx>,
+  body: &Body<'tcx>,
+  def_id: DefId,
+) -> PlaceSet<'tcx> {
+  let base_len = place.projection.len();
+  place
+    .interior_places(tcx, body, def_id)
+    .into_iter()
+    .map(|child| correct_fields(child, base_len, tcx, body, def_id))
+    .collect()
+}
+
+/// [`PlaceExt::interior_pointers`] with the right field indices.
+pub fn interior_pointers<'tcx>(
+  place: Place<'tcx>,
+  tcx: TyCtxt<'tcx>,
+  body: &Body<'tcx>,
+  def_id: DefId,
+) -> HashMap<RegionVid, Vec<(Place<'tcx>, Mutability)>> {
+  let base_len = place.projection.len();
+  let mut pointers = place.interior_pointers(tcx, body, def_id);
+  for (ptr, _) in pointers.values_mut().flatten() {
+    *ptr = correct_fields(*ptr, base_len, tcx, body, def_id);
+  }
+  pointers
+}
+
 /// Given the arguments to a function, returns all projections of the arguments that are mutable pointers.
 pub fn arg_mut_ptrs<'tcx>(
   args: &[(usize, Place<'tcx>)],
@@ -30,8 +108,7 @@ pub fn arg_mut_ptrs<'tcx>(
   args
     .iter()
     .flat_map(|(i, place)| {
-      place
-        .interior_pointers(tcx, body, def_id)
+      interior_pointers(*place, tcx, body, def_id)
         .into_iter()
         .flat_map(|(_, places)| {
           places
diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c2afa95..d10f41b 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -3,7 +3,10 @@
 use std::io::Write;
 
 use anyhow::Result;
-use flowistry::{infoflow::FlowResults, mir::utils::PlaceSet};
+use flowistry::{
+  infoflow::FlowResults,
+  mir::utils::{PlaceSet, interior_places},
+};
 use rustc_data_structures::fx::FxHashMap as HashMap;
 use rustc_hir::{BodyId, def::Res, def_id::DefId};
 use rustc_infer::traits::EvaluationResult;
@@ -79,7 +82,7 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
     .indices()
     .flat_map(|local| {
       let place = Place::from_local(local, tcx);
-      place.interior_places(tcx, body, def_id)
+      interior_places(place, tcx, body, def_id)
     })
     .collect::<PlaceSet>();
 
-- 
2.43.0


From 14f3ad0758011322d408f30f4d014ab6c16de3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:40 +0000
Subject: [PATCH 06/42] fix: include the values of indirect places in their
 dependencies

---
 crates/flowistry/src/infoflow/analysis.rs     | 6 +++++-
 crates/flowistry/src/infoflow/dependencies.rs | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 99ca5f6..3a35e0b 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -130,11 +130,15 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     place: Place<'tcx>,
   ) -> LocationOrArgSet {
     let mut deps = LocationOrArgSet::new(self.location_domain());
+    // The reachable values only contain direct places, so an indirect `place` (e.g. `*r`) has to
+    // be added to look up the dependencies of its aliases.
     for subplace in self
       .place_info
       .reachable_values(place, Mutability::Not)
       .iter()
-      .flat_map(|place| self.influences(*place))
+      .copied()
+      .chain([place])
+      .flat_map(|place| self.influences(place))
     {
       deps.union(state.row_set(&self.place_info.normalize(subplace)));
     }
diff --git a/crates/flowistry/src/infoflow/dependencies.rs b/crates/flowistry/src/infoflow/dependencies.rs
index 71e0995..fb62144 100644
--- a/crates/flowistry/src/infoflow/dependencies.rs
+++ b/crates/flowistry/src/infoflow/dependencies.rs
@@ -41,9 +41,12 @@ impl TargetDeps {
     // let mut backward = LocationSet::new(location_domain);
 
     let expanded_targets = targets.iter().flat_map(|(place, location)| {
+      // The aliases represent the values of an indirect place (e.g. `*r`), which are not
+      // considered reachable from it.
       place_info
         .reachable_values(*place, Mutability::Not)
         .iter()
+        .chain(place_info.aliases(*place))
         .map(move |reachable| (*reachable, *location))
     });
 
-- 
2.43.0


From e65059ebb9b568fecf978c6cfa839004a54c41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:52 +0000
Subject: [PATCH 07/42] fix: account for the parents of places behind
 references

---
 crates/flowistry/src/infoflow/analysis.rs | 1 +
 crates/flowistry/src/mir/placeinfo.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 3a35e0b..83b0008 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -116,6 +116,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .place_info
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
+            .flat_map(|alias| self.place_info.conflicts(*alias))
         });
     conflicts.chain(provenance).copied().collect()
   }
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index c9a6d14..9b72e6d 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -120,6 +120,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         .projection
         .iter()
         .enumerate()
+        .rev()
         .map(|(i, elem)| {
           let place = PlaceRef {
             local: place.local,
-- 
2.43.0


From de7765b517dbafda7f3e309fd93cf7bf213f7dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:06 +0000
Subject: [PATCH 08/42] fix: account for index operands of switches

---
 crates/flowistry/src/infoflow/analysis.rs | 8 +++++---
 crates/flowistry/src/infoflow/mutation.rs | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 83b0008..2a5c0c2 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -24,7 +24,7 @@ use smallvec::SmallVec;
 
 use super::{
   FlowResults,
-  mutation::{ModularMutationVisitor, Mutation, MutationStatus},
+  mutation::{ModularMutationVisitor, Mutation, MutationStatus, index_locals},
 };
 use crate::{
   extensions::{ContextMode, MutabilityMode, is_extension_active},
@@ -207,8 +207,10 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       if let TerminatorKind::SwitchInt { discr, .. } = &terminator.kind
         && let Some(discr_place) = discr.as_place()
       {
-        for deps in &mut all_deps {
-          add_deps(state, discr_place, deps);
+        for place in [discr_place].into_iter().chain(index_locals(discr_place, self.tcx)) {
+          for deps in &mut all_deps {
+            add_deps(state, place, deps);
+          }
         }
       }
     }
diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 174f018..bc52756 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -54,7 +54,7 @@ where
 /// Returns the locals used as an index within `place`, e.g. `i` in `a[i]`.
 ///
 /// Both reading from and writing to `a[i]` depend on `i`.
-fn index_locals<'tcx>(
+pub(super) fn index_locals<'tcx>(
   place: Place<'tcx>,
   tcx: TyCtxt<'tcx>,
 ) -> impl Iterator<Item = Place<'tcx>> {
-- 
2.43.0


From 0a4670e473dc0ba7d58feb873addbc2dce4ad0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:43 +0000
Subject: [PATCH 09/42] fix: account for all the inputs of a switch in forward
 slices

In 'match x.0 { .. }' after 'x = f(a)', the switch was not reported as affected
by a, because only the row of x.0 itself was consulted. Indices were missing too.
---
 crates/flowistry/src/infoflow/analysis.rs     | 24 +++++++++++++------
 crates/flowistry/src/infoflow/dependencies.rs | 19 ++++++++++-----
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 2a5c0c2..ef54522 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -121,6 +121,22 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     conflicts.chain(provenance).copied().collect()
   }
 
+  /// Adds the dependencies of reading `input` within `state` to `deps`.
+  pub(crate) fn add_influences(
+    &self,
+    state: &FlowDomain<'tcx>,
+    input: Place<'tcx>,
+    deps: &mut LocationOrArgSet,
+  ) {
+    for relevant in self.influences(input) {
+      let relevant_deps = state.row_set(&self.place_info.normalize(relevant));
+      trace!(
+        "    For relevant {relevant:?} for input {input:?} adding deps {relevant_deps:?}"
+      );
+      deps.union(relevant_deps);
+    }
+  }
+
   /// Returns all the dependencies of `place` within `state`.
   ///
   /// Prefer using this method instead of accessing `FlowDomain` directly,
@@ -167,13 +183,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     let add_deps = |state: &FlowDomain<'tcx>,
                     input,
                     target_deps: &mut LocationOrArgSet| {
-      for relevant in self.influences(input) {
-        let relevant_deps = state.row_set(&self.place_info.normalize(relevant));
-        trace!(
-          "    For relevant {relevant:?} for input {input:?} adding deps {relevant_deps:?}"
-        );
-        target_deps.union(relevant_deps);
-      }
+      self.add_influences(state, input, target_deps);
     };
 
     // Register every explicitly provided input as an input.
diff --git a/crates/flowistry/src/infoflow/dependencies.rs b/crates/flowistry/src/infoflow/dependencies.rs
index fb62144..745ecdc 100644
--- a/crates/flowistry/src/infoflow/dependencies.rs
+++ b/crates/flowistry/src/infoflow/dependencies.rs
@@ -10,7 +10,10 @@ use rustc_utils::{
   source_map::spanner::{EnclosingHirSpans, Spanner},
 };
 
-use super::{FlowDomain, FlowResults, mutation::ModularMutationVisitor};
+use super::{
+  FlowDomain, FlowResults,
+  mutation::{ModularMutationVisitor, index_locals},
+};
 use crate::{infoflow::mutation::Mutation, mir::placeinfo::PlaceInfo};
 
 /// Which way to look for dependencies
@@ -149,9 +152,7 @@ pub fn compute_dependencies<'tcx>(
 
     for location in body.all_locations() {
       let state = results.state_at(location);
-      let check = |place| {
-        let deps = deps(state, aliases, place);
-
+      let check = |deps: &LocationOrArgSet| {
         for (target_deps, outputs) in
           iter::zip(&all_target_deps, &mut *outputs.borrow_mut())
         {
@@ -170,13 +171,19 @@ pub fn compute_dependencies<'tcx>(
           kind: TerminatorKind::SwitchInt { discr, .. },
           ..
         }) => {
+          // A switch reads its operand, so it depends on everything that a read of that place
+          // depends on, not just on the place's own row.
           if let Some(place) = discr.as_place() {
-            check(place);
+            let mut deps = LocationOrArgSet::new(location_domain);
+            for input in iter::once(place).chain(index_locals(place, results.analysis.tcx)) {
+              results.analysis.add_influences(state, input, &mut deps);
+            }
+            check(&deps);
           }
         }
         _ => ModularMutationVisitor::new(&results.analysis.place_info, |_, mutations| {
           for Mutation { mutated, .. } in mutations {
-            check(mutated);
+            check(deps(state, aliases, mutated));
           }
         })
         .visit_location(body, location),
-- 
2.43.0


From 68b73cff51e810eb5d1ebb88896028afdec308e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:46 +0000
Subject: [PATCH 10/42] fix: let calls depend on everything behind their
 arguments

In '*s.r = b; f(s)' with s: S<'_> { r: &mut i32 }, the result of the call was
not reported to depend on b: the memory behind a reference was only taken as
an input when the argument was borrowed right at the call.
---
 crates/flowistry/src/infoflow/mutation.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index bc52756..515c375 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -235,11 +235,19 @@ where
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
         // If the callee is a function pointer, then the effects depend on its value.
+        // The callee can also read everything behind the pointers in its arguments.
         let arg_inputs = func
           .as_place()
           .iter()
           .chain(&arg_places)
           .flat_map(|place| iter::once(*place).chain(index_locals(*place, tcx)))
+          .chain(arg_places.iter().flat_map(|place| {
+            self
+              .place_info
+              .reachable_values(*place, Mutability::Not)
+              .iter()
+              .copied()
+          }))
           .collect::<Vec<_>>();
 
         let ret_is_unit = destination
-- 
2.43.0


From ea57f5f9d63da85b1ecb6ba96e9dad8b5fd9d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:10 +0000
Subject: [PATCH 11/42] fix: resolve the aliases of arguments that are
 reassigned

---
 crates/flowistry/src/mir/aliases.rs | 60 ++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 984539c..9b224a1 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -15,8 +15,11 @@ use rustc_index::{
   bit_set::{ChunkedBitSet, SparseBitMatrix},
 };
 use rustc_middle::{
-  mir::{visit::Visitor, *},
-  ty::{Region, RegionKind, RegionVid, Ty, TyCtxt, TyKind},
+  mir::{
+    visit::{PlaceContext, Visitor},
+    *,
+  },
+  ty::{Region, RegionKind, RegionVid, Ty, TyCtxt, TyKind, TypeVisitableExt},
 };
 use rustc_utils::{PlaceExt, mir::place::UNKNOWN_REGION, timer::elapsed};
 
@@ -52,6 +55,25 @@ impl<'tcx> Visitor<'tcx> for GatherBorrows<'tcx> {
   }
 }
 
+/// Finds the arguments whose own references may be replaced within the body.
+struct GatherReassignedArgs<'a, 'tcx> {
+  tcx: TyCtxt<'tcx>,
+  body: &'a Body<'tcx>,
+  reassigned: HashSet<Local>,
+}
+
+impl<'tcx> Visitor<'tcx> for GatherReassignedArgs<'_, 'tcx> {
+  fn visit_place(&mut self, place: &Place<'tcx>, context: PlaceContext, _: Location) {
+    if context.is_mutating_use()
+      && place.is_arg(self.body)
+      && place.refs_in_projection(self.body, self.tcx).next().is_none()
+      && place.ty(self.body.local_decls(), self.tcx).ty.has_free_regions()
+    {
+      self.reassigned.insert(place.local);
+    }
+  }
+}
+
 type LoanSet<'tcx> = HashSet<(Place<'tcx>, Mutability)>;
 type LoanMap<'tcx> = HashMap<RegionVid, LoanSet<'tcx>>;
 
@@ -60,6 +82,7 @@ pub struct Aliases<'a, 'tcx> {
   tcx: TyCtxt<'tcx>,
   body: &'a Body<'tcx>,
   pub(super) loans: LoanMap<'tcx>,
+  reassigned_args: HashSet<Local>,
 }
 
 rustc_index::newtype_index! {
@@ -76,11 +99,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     body_with_facts: &'a BodyWithBorrowckFacts<'tcx>,
   ) -> Self {
     let loans = Self::compute_loans(tcx, def_id, body_with_facts, |_, _, _| true);
-    Aliases {
-      tcx,
-      body: &body_with_facts.body,
-      loans,
-    }
+    Self::from_loans(tcx, &body_with_facts.body, loans)
   }
 
   /// Alternative constructor if you need to filter out certain borrowck facts.
@@ -93,10 +112,33 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     selector: impl Fn(RegionVid, RegionVid, BorrowckLocationIndex) -> bool,
   ) -> Self {
     let loans = Self::compute_loans(tcx, def_id, body_with_facts, selector);
+    Self::from_loans(tcx, &body_with_facts.body, loans)
+  }
+
+  fn from_loans(tcx: TyCtxt<'tcx>, body: &'a Body<'tcx>, loans: LoanMap<'tcx>) -> Self {
+    let mut gather_reassigned = GatherReassignedArgs {
+      tcx,
+      body,
+      reassigned: HashSet::default(),
+    };
+    gather_reassigned.visit_body(body);
     Aliases {
       tcx,
-      body: &body_with_facts.body,
+      body,
       loans,
+      reassigned_args: gather_reassigned.reassigned,
+    }
+  }
+
+  /// Returns true if `place` is behind a reference inside an argument, and that reference
+  /// may no longer be the one that was passed by the caller.
+  fn is_behind_reassigned(&self, place: Place<'tcx>) -> bool {
+    let mut refs = place.refs_in_projection(self.body, self.tcx);
+    match (refs.next(), refs.next()) {
+      (None, _) => false,
+      (Some(_), None) => self.reassigned_args.contains(&place.local),
+      // A reference behind another reference can also be replaced through the latter.
+      (Some(_), Some(_)) => true,
     }
   }
 
@@ -372,7 +414,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     aliases.insert(place);
 
     // Places with no derefs, or derefs from arguments, have no aliases
-    if place.is_direct(self.body, self.tcx) {
+    if place.is_direct(self.body, self.tcx) && !self.is_behind_reassigned(place) {
       return aliases;
     }
 
-- 
2.43.0


From c084dea606d01b42b80bd4679fe6bc818ad367e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:18 +0000
Subject: [PATCH 12/42] fix: do not keep dependencies for bare enum variants

---
 crates/flowistry/src/mir/placeinfo.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index 9b72e6d..2c0ea27 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -132,7 +132,11 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
           place.ty(self.body.local_decls(), self.tcx).ty.is_box()
             || !matches!(elem, PlaceElem::Deref)
         })
-        .map(|(place_ref, _)| Place::from_ref(place_ref, self.tcx));
+        .map(|(place_ref, _)| place_ref)
+        // The bare view of a variant is not a place of its own: it is never assigned, and
+        // not one of the children that an assignment to the whole enum replaces.
+        .filter(|place| !matches!(place.last_projection(), Some((_, PlaceElem::Downcast(..)))))
+        .map(|place_ref| Place::from_ref(place_ref, self.tcx));
       children.into_iter().chain(parents).collect()
     })
   }
-- 
2.43.0


From 494643294c0471716fcdf5da481f4d87a5023ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 13/42] fix: let an assignment overwrite its place as a whole

---
 crates/flowistry/src/infoflow/analysis.rs | 47 +++++++++++++++--------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index ef54522..8696f49 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -1,5 +1,6 @@
 use std::{cell::RefCell, rc::Rc};
 
+use either::Either;
 // use indexical::impls::RustcIndexMatrix as IndexMatrix;
 use indexical::bitset::rustc::IndexMatrix;
 use log::{debug, trace};
@@ -162,6 +163,25 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     deps
   }
 
+  /// Clears the dependencies of `place` and its children, if it is sound to do so.
+  fn clear_overwritten(&self, state: &mut FlowDomain<'tcx>, place: Place<'tcx>) {
+    // Writing to one element of an array leaves the other elements as they were, and all
+    // elements share the same normalized place.
+    let is_element = place.projection.iter().any(|elem| {
+      matches!(
+        elem,
+        ProjectionElem::Index(..)
+          | ProjectionElem::ConstantIndex { .. }
+          | ProjectionElem::Subslice { .. }
+      )
+    });
+    if !is_element && self.place_info.aliases(place).len() == 1 {
+      for sub in self.place_info.children(place).iter() {
+        state.clear_row(&self.place_info.normalize(*sub));
+      }
+    }
+  }
+
   // This function expects *ALL* the mutations that occur within a given [`Location`] at once.
   pub(crate) fn transfer_function(
     &self,
@@ -225,27 +245,20 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       }
     }
 
+    // An assignment can be split into mutations of the fields of its place, but it still
+    // overwrites the place as a whole.
+    if let Either::Left(statement) = body.stmt_at(location)
+      && let StatementKind::Assign(assign) = &statement.kind
+    {
+      self.clear_overwritten(state, assign.0);
+    }
+
     let ignore_mut =
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       // Clear sub-places of mutated place (if sound to do so)
-      // Writing to one element of an array leaves the other elements as they were, and all
-      // elements share the same normalized place.
-      let is_element = mt.mutated.projection.iter().any(|elem| {
-        matches!(
-          elem,
-          ProjectionElem::Index(..)
-            | ProjectionElem::ConstantIndex { .. }
-            | ProjectionElem::Subslice { .. }
-        )
-      });
-      if matches!(mt.status, MutationStatus::Definitely)
-        && !is_element
-        && self.place_info.aliases(mt.mutated).len() == 1
-      {
-        for sub in self.place_info.children(mt.mutated).iter() {
-          state.clear_row(&self.place_info.normalize(*sub));
-        }
+      if matches!(mt.status, MutationStatus::Definitely) {
+        self.clear_overwritten(state, mt.mutated);
       }
 
       // Add deps of mutated to include provenance of mutated pointers
-- 
2.43.0


From c913156e961a40b38f6c6cfdf5543f0504df713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 14/42] fix: do not mutate through shared reborrows of mutable
 arguments

---
 crates/flowistry/src/mir/aliases.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 9b224a1..7c784f3 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -221,6 +221,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     let mut contains: LoanMap<'tcx> = HashMap::default();
     let mut definite: HashMap<RegionVid, (Ty<'tcx>, Vec<PlaceElem<'tcx>>)> =
       HashMap::default();
+    let mut shared_borrows = HashSet::default();
 
     // For all e = &'a x.q in body:
     //   contains('a, p).
@@ -229,6 +230,10 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     let mut gather_borrows = GatherBorrows::default();
     gather_borrows.visit_body(body);
     for (region, kind, place) in gather_borrows.borrows {
+      if kind.to_mutbl_lossy().is_not() {
+        shared_borrows.insert(region);
+      }
+
       if place.is_direct(body, tcx) {
         contains
           .entry(region)
@@ -355,6 +360,12 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
             match definite.get(&b) {
               Some((ty, proj)) if !cyclic => {
                 for (p, mutability) in a_contains.iter() {
+                  // Nothing can be mutated through a shared reborrow, even of a mutable reference.
+                  let mutability = if shared_borrows.contains(&b) {
+                    Mutability::Not
+                  } else {
+                    *mutability
+                  };
                   let p_ty = p.ty(body.local_decls(), tcx).ty;
                   let p_proj = if *ty == p_ty {
                     let mut full_proj = p.projection.to_vec();
@@ -364,7 +375,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
                     *p
                   };
 
-                  changed |= b_contains.insert((p_proj, *mutability));
+                  changed |= b_contains.insert((p_proj, mutability));
                 }
               }
               _ => {
-- 
2.43.0


From 7a67d64cee1fe56c86f1b1ba67ed815b70c48fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 15/42] fix: an argument is among its own forward dependencies
 even if overwritten at once

---
 crates/flowistry/src/infoflow/dependencies.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/flowistry/src/infoflow/dependencies.rs b/crates/flowistry/src/infoflow/dependencies.rs
index 745ecdc..e140ca1 100644
--- a/crates/flowistry/src/infoflow/dependencies.rs
+++ b/crates/flowistry/src/infoflow/dependencies.rs
@@ -137,14 +137,8 @@ pub fn compute_dependencies<'tcx>(
 
     for arg in body.args_iter() {
       let location = LocationOrArg::Arg(arg);
-      for (target_deps, outputs) in
-        iter::zip(&all_target_deps, &mut *outputs.borrow_mut())
-      {
-        if target_deps
-          .all_forward
-          .iter()
-          .any(|fwd| fwd.len() == 1 && fwd.contains(location))
-        {
+      for (targets, outputs) in iter::zip(&all_targets, &mut *outputs.borrow_mut()) {
+        if targets.iter().any(|(_, target)| *target == location) {
           outputs.insert(location);
         }
       }
-- 
2.43.0


From 95d7141b0c548cf39cda8027671fe55d758e687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:41 +0000
Subject: [PATCH 16/42] fix: do not apply the effect of a location to its own
 result

---
 crates/flowistry/src/mir/engine.rs | 109 ++++++++++++++---------------
 1 file changed, 51 insertions(+), 58 deletions(-)

diff --git a/crates/flowistry/src/mir/engine.rs b/crates/flowistry/src/mir/engine.rs
index 93f613a..e4e25b2 100644
--- a/crates/flowistry/src/mir/engine.rs
+++ b/crates/flowistry/src/mir/engine.rs
@@ -18,16 +18,13 @@ use indexical::ToIndex;
 use rustc_data_structures::{graph::Successors, work_queue::WorkQueue};
 use rustc_index::IndexVec;
 use rustc_middle::{
-  mir::{Body, Location, traversal},
+  mir::{BasicBlock, Body, Location, START_BLOCK, traversal},
   ty::TyCtxt,
 };
 use rustc_mir_dataflow::{Analysis, Direction, JoinSemiLattice};
 use rustc_utils::{
   BodyExt,
-  mir::location_or_arg::{
-    LocationOrArg,
-    index::{LocationOrArgDomain, LocationOrArgIndex},
-  },
+  mir::location_or_arg::index::{LocationOrArgDomain, LocationOrArgIndex},
 };
 
 /// An alternative implementation of
@@ -58,68 +55,39 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
 ) -> AnalysisResults<'tcx, A> {
   let bottom_value = analysis.bottom_value(body);
 
-  // `state` materializes the analysis domain for *every* location, which is the crux
-  // of this implementation strategy.
-  let num_locs = body.all_locations().count();
-  let mut state = IndexVec::from_elem_n(bottom_value, num_locs);
-
-  analysis
-    .initialize_start_block(body, &mut state[Location::START.to_index(&location_domain)]);
+  // The effect of a location may only be applied to the state at its entry, so the fixpoint
+  // is computed over the states at the entries of blocks.
+  let mut entry = IndexVec::from_elem_n(bottom_value.clone(), body.basic_blocks.len());
+  analysis.initialize_start_block(body, &mut entry[START_BLOCK]);
 
-  let mut dirty_queue: WorkQueue<LocationOrArgIndex> = WorkQueue::with_none(num_locs);
+  let mut dirty_queue: WorkQueue<BasicBlock> =
+    WorkQueue::with_none(body.basic_blocks.len());
   if A::Direction::IS_FORWARD {
-    for (block, data) in traversal::reverse_postorder(body) {
-      for statement_index in 0 ..= data.statements.len() {
-        let location = Location {
-          block,
-          statement_index,
-        };
-        dirty_queue.insert(location.to_index(&location_domain));
-      }
+    for (block, _) in traversal::reverse_postorder(body) {
+      dirty_queue.insert(block);
     }
   }
 
-  while let Some(loc_index) = dirty_queue.pop() {
-    let LocationOrArg::Location(location) = *location_domain.value(loc_index) else {
-      unreachable!()
-    };
-    let next_locs = match body.stmt_at(location) {
-      Either::Left(statement) => {
-        analysis.apply_primary_statement_effect(
-          &mut state[loc_index],
-          statement,
-          location,
-        );
-        vec![location.successor_within_block()]
-      }
-      Either::Right(terminator) => {
-        analysis.apply_primary_terminator_effect(
-          &mut state[loc_index],
-          terminator,
-          location,
-        );
-        body
-          .basic_blocks
-          .successors(location.block)
-          .map(|block| Location {
-            block,
-            statement_index: 0,
-          })
-          .collect::<Vec<_>>()
-      }
-    };
-
-    for next_loc in next_locs {
-      let next_loc_index = location_domain.index(&LocationOrArg::Location(next_loc));
-      let (cur_state, next_state) = state.pick2_mut(loc_index, next_loc_index);
-      let changed = next_state.join(cur_state);
-      if changed {
-        dirty_queue.insert(next_loc_index);
+  while let Some(block) = dirty_queue.pop() {
+    let mut block_state = entry[block].clone();
+    apply_block(&mut analysis, body, block, &mut block_state, |_, _| {});
+    for next_block in body.basic_blocks.successors(block) {
+      if entry[next_block].join(&block_state) {
+        dirty_queue.insert(next_block);
       }
     }
   }
 
-  let state = state.into_iter().map(Rc::new).collect();
+  // `state` materializes the analysis domain for *every* location, which is the crux
+  // of this implementation strategy.
+  let num_locs = body.all_locations().count();
+  let mut state = IndexVec::from_elem_n(Rc::new(bottom_value), num_locs);
+  for (block, _) in traversal::reverse_postorder(body) {
+    let block_state = &mut entry[block];
+    apply_block(&mut analysis, body, block, block_state, |location, cur| {
+      state[location.to_index(&location_domain)] = Rc::new(cur.clone());
+    });
+  }
 
   AnalysisResults {
     analysis,
@@ -127,3 +95,28 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
     state,
   }
 }
+
+/// Applies the effects of every location in `block` to `state`, visiting the result after each.
+fn apply_block<'tcx, A: Analysis<'tcx>>(
+  analysis: &mut A,
+  body: &Body<'tcx>,
+  block: BasicBlock,
+  state: &mut A::Domain,
+  mut visit: impl FnMut(Location, &A::Domain),
+) {
+  for statement_index in 0 ..= body.basic_blocks[block].statements.len() {
+    let location = Location {
+      block,
+      statement_index,
+    };
+    match body.stmt_at(location) {
+      Either::Left(statement) => {
+        analysis.apply_primary_statement_effect(state, statement, location);
+      }
+      Either::Right(terminator) => {
+        analysis.apply_primary_terminator_effect(state, terminator, location);
+      }
+    }
+    visit(location, state);
+  }
+}
-- 
2.43.0


From a1afdf069d2be5dcb50f123bf4f4fad417f9d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:31 +0000
Subject: [PATCH 17/42] fix: translate types of callee's fields to the caller
 in recursive analysis

---
 crates/flowistry/src/infoflow/recursive.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index d03faca..efb6a7e 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -182,18 +182,15 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
           break;
         }
 
-        // ty = ty.projection_ty_core(tcx, elem, structurally_normalize, handle_field, handle_opaque_cast_and_subtype)
-        ty = ty.projection_ty(tcx, elem);
-        // ty = ty.projection_ty_core(
-        //   tcx,
-        //   &elem,
-        //   |_, field, _| ty.field_ty(tcx, field),
-        //   |_, ty| ty,
-        // );
+        // The type of a field within `elem` has the regions of the child, not of the parent.
         let elem = match elem {
-          ProjectionElem::Field(field, _) => ProjectionElem::Field(field, ty.ty),
+          ProjectionElem::Field(field, _) => {
+            let field_ty = PlaceTy::field_ty(tcx, ty.ty, ty.variant_index, field);
+            ProjectionElem::Field(field, field_ty)
+          }
           elem => elem,
         };
+        ty = ty.projection_ty(tcx, elem);
         projection.push(elem);
       }
 
-- 
2.43.0


From ce3ca9fb4b77335a678bc86b60c4f1e671348beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:38 +0000
Subject: [PATCH 18/42] fix: count initial values of arguments as inputs in
 recursive analysis

---
 crates/flowistry/src/infoflow/recursive.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index efb6a7e..90e1dd6 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -213,6 +213,15 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
         .rows()
         .filter(|(_, deps)| child_deps.is_superset(deps))
         .filter_map(|(row, _)| translate_child_to_parent(*row, false))
+        // The initial value of an argument may have been used before being overwritten.
+        .chain(
+          flow
+            .analysis
+            .place_info
+            .all_args()
+            .filter(|(_, arg)| child_deps.contains(*arg))
+            .filter_map(|(row, _)| translate_child_to_parent(row, false)),
+        )
         .collect::<Vec<_>>();
 
       debug!(
-- 
2.43.0


From 8e49773c22aeb67c43f304e9541509d2a78afba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 19/42] fix: keep all parts of a recursively analyzed call's
 return value

---
 crates/flowistry/src/infoflow/recursive.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 90e1dd6..e033899 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -198,7 +198,14 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       Some(parent_arg_projected)
     };
 
-    let mutations = return_state.rows().filter_map(|(child, _)| {
+    // The call overwrites the destination once as a whole. Different parts of the return value
+    // may translate to the same place, so none of them can overwrite it.
+    let mut mutations = vec![Mutation {
+      mutated: *destination,
+      inputs: vec![],
+      status: MutationStatus::Definitely,
+    }];
+    mutations.extend(return_state.rows().filter_map(|(child, _)| {
       let parent = translate_child_to_parent(*child, true)?;
 
       let was_return: bool = child.local == RETURN_PLACE;
@@ -231,13 +238,9 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       Some(Mutation {
         mutated: parent,
         inputs: parent_deps.clone(),
-        status: if was_return {
-          MutationStatus::Definitely
-        } else {
-          MutationStatus::Possibly
-        },
+        status: MutationStatus::Possibly,
       })
-    }).collect::<Vec<_>>();
+    }));
 
     self.transfer_function(state, mutations, location);
 
-- 
2.43.0


From 93ecbccc3a4cf1cd94d3a6e615d40a53d130df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 20/42] fix: branches between a callee's returns affect the
 result in recursive analysis

---
 crates/flowistry/src/infoflow/recursive.rs | 47 +++++++++++++++-------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index e033899..ab2f604 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -1,19 +1,26 @@
 #![allow(unused)]
 
+use std::iter;
+
 use log::{debug, info};
 use rustc_middle::{
   mir::*,
   ty::{ClosureKind, GenericArgKind, TyKind},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
-use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
+use rustc_utils::{
+  BodyExt, OperandExt, PlaceExt,
+  mir::{
+    borrowck_facts::get_body_with_borrowck_facts, location_or_arg::index::LocationOrArgSet,
+  },
+};
 
 use super::{BODY_STACK, analysis::FlowAnalysis};
 use crate::{
   extensions::REACHED_LIBRARY,
   infoflow::{
     FlowDomain,
-    mutation::{Mutation, MutationStatus},
+    mutation::{Mutation, MutationStatus, index_locals},
   },
   mir::utils,
 };
@@ -125,20 +132,31 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
     });
     let body = &body_with_facts.body;
 
+    let is_return = |block: BasicBlock| {
+      matches!(body.basic_blocks[block].terminator().kind, TerminatorKind::Return)
+    };
     let mut return_state = FlowDomain::new(flow.analysis.location_domain());
-    {
-      let return_locs = body
-        .basic_blocks
-        .iter_enumerated()
-        .filter_map(|(bb, data)| match data.terminator().kind {
-          TerminatorKind::Return => Some(body.terminator_loc(bb)),
-          _ => None,
-        });
+    for block in body.basic_blocks.indices().filter(|block| is_return(*block)) {
+      return_state.join(flow.state_at(body.terminator_loc(block)));
+    }
 
-      for loc in return_locs {
-        return_state.join(flow.state_at(loc));
+    // Within a body, different return paths are independent. But for its caller,
+    // any effect depends on the choice between them.
+    let mut exit_deps = LocationOrArgSet::new(flow.analysis.location_domain());
+    for (block, data) in body.basic_blocks.iter_enumerated() {
+      if let TerminatorKind::SwitchInt { discr, .. } = &data.terminator().kind
+        && let Some(place) = discr.as_place()
+        && traversal::Preorder::new(body, block)
+          .filter(|(block, _)| is_return(*block))
+          .count()
+          > 1
+      {
+        let state = flow.state_at(body.terminator_loc(block));
+        for input in iter::once(place).chain(index_locals(place, tcx)) {
+          flow.analysis.add_influences(state, input, &mut exit_deps);
+        }
       }
-    };
+    }
 
     let translate_child_to_parent = |child: Place<'tcx>,
                                      mutated: bool|
@@ -215,7 +233,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
         return None;
       }
 
-      let child_deps = return_state.row_set(child);
+      let mut child_deps = return_state.row_set(child).clone();
+      child_deps.union(&exit_deps);
       let parent_deps = return_state
         .rows()
         .filter(|(_, deps)| child_deps.is_superset(deps))
-- 
2.43.0


From 0a70526909d43dbee2f3ce997ea8e248b60b9265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 21/42] fix: only initial values of arguments are inputs of
 recursively analyzed calls

---
 crates/flowistry/src/infoflow/recursive.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index ab2f604..f48e527 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -235,19 +235,13 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
 
       let mut child_deps = return_state.row_set(child).clone();
       child_deps.union(&exit_deps);
-      let parent_deps = return_state
-        .rows()
-        .filter(|(_, deps)| child_deps.is_superset(deps))
-        .filter_map(|(row, _)| translate_child_to_parent(*row, false))
-        // The initial value of an argument may have been used before being overwritten.
-        .chain(
-          flow
-            .analysis
-            .place_info
-            .all_args()
-            .filter(|(_, arg)| child_deps.contains(*arg))
-            .filter_map(|(row, _)| translate_child_to_parent(row, false)),
-        )
+      // Inputs are read before the call, so only the initial values of arguments matter.
+      let parent_deps = flow
+        .analysis
+        .place_info
+        .all_args()
+        .filter(|(_, arg)| child_deps.contains(*arg))
+        .filter_map(|(row, _)| translate_child_to_parent(row, false))
         .collect::<Vec<_>>();
 
       debug!(
-- 
2.43.0


From 4045c7c9c37beab90a350fd0238e84aaa57c63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:29 +0000
Subject: [PATCH 22/42] fix: do not recurse into callees that cannot see the
 pointers of their arguments

---
 crates/flowistry/src/infoflow/recursive.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index f48e527..546640d 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -52,8 +52,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
-    let def_id = match func.const_.ty().kind() {
-      TyKind::FnDef(def_id, _) => def_id,
+    let (def_id, generic_args) = match func.const_.ty().kind() {
+      TyKind::FnDef(def_id, generic_args) => (def_id, generic_args),
       _ => {
         debug!("  Func is not a FnDef");
         return false;
@@ -105,6 +105,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
             substs.as_closure().kind(),
             ClosureKind::FnOnce | ClosureKind::FnMut
           ),
+          // The callee does not see the pointers behind a trait object.
+          TyKind::Dynamic(..) => true,
           _ => false,
         },
         _ => false,
@@ -115,6 +117,19 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       return false;
     }
 
+    // The callee does not see the pointers in the types that it is generic over either.
+    let any_generic_pointers = generic_args.types().any(|ty| {
+      ty.walk().any(|arg| match arg.kind() {
+        GenericArgKind::Lifetime(_) => true,
+        GenericArgKind::Type(ty) => ty.is_raw_ptr(),
+        _ => false,
+      })
+    });
+    if any_generic_pointers {
+      debug!("  Func is generic over pointers");
+      return false;
+    }
+
     let recursive = BODY_STACK.with(|body_stack| {
       let body_stack = body_stack.borrow();
       body_stack.contains(&body_id)
-- 
2.43.0


From 91b28021137af529d6520d256cf0528464433278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:24 +0000
Subject: [PATCH 23/42] fix: apply the mutations of a location at once, in no
 particular order

---
 crates/flowistry/src/infoflow/analysis.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 8696f49..debd613 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -253,17 +253,22 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       self.clear_overwritten(state, assign.0);
     }
 
-    let ignore_mut =
-      is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
-    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
-      // Clear sub-places of mutated place (if sound to do so)
+    // Clear sub-places of mutated places (if sound to do so)
+    for mt in &mutations {
       if matches!(mt.status, MutationStatus::Definitely) {
         self.clear_overwritten(state, mt.mutated);
       }
+    }
 
-      // Add deps of mutated to include provenance of mutated pointers
+    // Add deps of mutated to include provenance of mutated pointers. The mutations happen
+    // at once, so this must come before any of them is applied.
+    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       add_deps(state, mt.mutated, deps);
+    }
 
+    let ignore_mut =
+      is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
+    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       let mutable_aliases = self
         .place_info
         .aliases(mt.mutated)
-- 
2.43.0


From 22c0df83d756686ed07c2782c1136bf1649814ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 24/42] fix: report selections outside of the file as errors

---
 crates/flowistry_ide/src/plugin.rs | 47 +++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/crates/flowistry_ide/src/plugin.rs b/crates/flowistry_ide/src/plugin.rs
index 311c1df..575e731 100644
--- a/crates/flowistry_ide/src/plugin.rs
+++ b/crates/flowistry_ide/src/plugin.rs
@@ -6,7 +6,7 @@ use std::{
   time::Instant,
 };
 
-use anyhow::Context;
+use anyhow::{Context, ensure};
 use base64::Engine;
 use clap::{Parser, Subcommand};
 use flowistry::extensions::{
@@ -18,13 +18,13 @@ use rustc_hir::BodyId;
 use rustc_interface::interface::Result as RustcResult;
 use rustc_middle::ty::TyCtxt;
 use rustc_plugin::{CrateFilter, RustcPlugin, RustcPluginArgs, Utf8Path};
-use rustc_span::ErrorGuaranteed;
+use rustc_span::{ErrorGuaranteed, Span};
 use rustc_utils::{
   mir::borrowck_facts,
   source_map::{
     filename::Filename,
     find_bodies::find_enclosing_bodies,
-    range::{CharPos, CharRange, FunctionIdentifier, ToSpan},
+    range::{CharPos, CharRange, ToSpan},
   },
   timer::elapsed,
 };
@@ -152,16 +152,18 @@ impl RustcPlugin for FlowistryPlugin {
         end_column,
         ..
       } => {
-        let compute_target = || CharRange {
-          start: CharPos {
-            line: start_line,
-            column: start_column,
-          },
-          end: CharPos {
-            line: end_line,
-            column: end_column,
-          },
-          filename: Filename::intern(&file),
+        let compute_target = || {
+          Selection(CharRange {
+            start: CharPos {
+              line: start_line,
+              column: start_column,
+            },
+            end: CharPos {
+              line: end_line,
+              column: end_column,
+            },
+            filename: Filename::intern(&file),
+          })
         };
         postprocess(run(
           crate::playground::playground,
@@ -186,7 +188,7 @@ impl RustcPlugin for FlowistryPlugin {
             filename: Filename::intern(&file),
           };
           debug!("eyo WTF {range:?} {file}");
-          FunctionIdentifier::Range(range)
+          Selection(range)
         };
         postprocess(run(crate::focus::focus, compute_target, &compiler_args))
       }
@@ -215,6 +217,23 @@ impl RustcPlugin for FlowistryPlugin {
   }
 }
 
+/// A range selected in an editor, which may lie outside of the file, e.g. on the empty
+/// line after its last newline.
+struct Selection(CharRange);
+
+impl ToSpan for Selection {
+  fn to_span(&self, tcx: TyCtxt) -> anyhow::Result<Span> {
+    let file = self.0.filename.find_source_file(tcx.sess.source_map())?;
+    for pos in [self.0.start, self.0.end] {
+      let in_file = file
+        .get_line(pos.line)
+        .is_some_and(|line| pos.column <= line.chars().count());
+      ensure!(in_file, "Selection is outside of the file");
+    }
+    self.0.to_span(tcx)
+  }
+}
+
 fn postprocess<T: Serialize>(result: FlowistryResult<T>) -> RustcResult<()> {
   let result = match result {
     Ok(output) => Ok(output),
-- 
2.43.0


From 1af7927b38abd8d9923b2d7654ca88c0791cca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:17 +0000
Subject: [PATCH 25/42] fix: cargo ifc does not crash on functions that never
 return

---
 crates/flowistry_ifc/src/analysis.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index d10f41b..c83b646 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -105,8 +105,11 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
     .reduce(|mut a, b| {
       a.join(&b);
       a
-    })
-    .unwrap();
+    });
+  // A function that never returns has no final state.
+  let Some(final_state) = final_state else {
+    return Ok(IssueFound::No);
+  };
 
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
-- 
2.43.0


From 64b233d6d87dae10ce38c24979624da8b511610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:49 +0000
Subject: [PATCH 26/42] fix: cargo ifc does not report secure places without a
 value as leaking

---
 crates/flowistry_ifc/src/analysis.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c83b646..ece539c 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -114,6 +114,10 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
     let secure_deps = results.analysis.deps_for(&final_state, *secure);
+    // A place that never got a value has none to leak.
+    if secure_deps.is_empty() {
+      continue;
+    }
     for insecure in insecure_places.iter() {
       let insecure_deps = results.analysis.deps_for(&final_state, *insecure);
       if insecure_deps.is_superset(&secure_deps) {
-- 
2.43.0


From 84a32041d273c6ea5e8342b08784e75d1cf91265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:49 +0000
Subject: [PATCH 27/42] fix: cargo ifc shows where parameters are

---
 crates/flowistry_ifc/src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index ece539c..4b00e6d 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -140,7 +140,7 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   };
   let has_errors = !errors.is_empty();
   for (src, dst) in errors {
-    let body_span = tcx.hir_span_with_body(body_id.hir_id);
+    let body_span = body.span;
     let src_span = decls[src.local].source_info.span.as_local(body_span);
     let dst_span = decls[dst.local].source_info.span.as_local(body_span);
 
-- 
2.43.0


From fed90a48048366e5081e6b8e4743331dc3e815c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:39 +0000
Subject: [PATCH 28/42] fix: let references that walk through a recursive type
 alias its inner values

---
 crates/flowistry/src/mir/aliases.rs | 36 +++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 7c784f3..f9b8c0d 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -320,7 +320,9 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     // If 'a is from a borrow expression &'a proj[*p'], then we add proj to all inherited aliases.
     // See interprocedural_field_independence for an example where this matters.
     // But we only do this if:
-    //   * !subset('b, 'a) since otherwise projections would be added infinitely.
+    //   * !subset('b, 'a) since otherwise projections would be added infinitely. In that case,
+    //     we keep p and add proj only until a type recurs, so references that walk through
+    //     a recursive type have aliases within the outermost value as well.
     //   * if p' : &T, then p : T since otherwise proj[p] is not well-typed.
     //
     // Note that it's theoretically more efficient to compute the transitive closure of `subset`
@@ -378,9 +380,14 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
                   changed |= b_contains.insert((p_proj, mutability));
                 }
               }
-              _ => {
+              def => {
                 let orig_len = b_contains.len();
                 b_contains.extend(a_contains);
+                if let Some((ty, proj)) = def {
+                  b_contains.extend(a_contains.iter().filter_map(|(p, mutability)| {
+                    Some((Self::project_once(tcx, body, *p, *ty, proj)?, *mutability))
+                  }));
+                }
                 changed |= b_contains.len() != orig_len;
               }
             }
@@ -404,6 +411,31 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     contains
   }
 
+  /// Appends `proj` to a `place` of type `ty`, unless that leads back to the type of a place
+  /// that contains the result.
+  fn project_once(
+    tcx: TyCtxt<'tcx>,
+    body: &Body<'tcx>,
+    place: Place<'tcx>,
+    ty: Ty<'tcx>,
+    proj: &[PlaceElem<'tcx>],
+  ) -> Option<Place<'tcx>> {
+    let decls = body.local_decls();
+    if place.ty(decls, tcx).ty != ty {
+      return None;
+    }
+    let mut full_proj = place.projection.to_vec();
+    full_proj.extend(proj);
+    let target = Place::make(place.local, tcx.mk_place_elems(&full_proj), tcx);
+    let target_ty = tcx.erase_regions(target.ty(decls, tcx).ty);
+    place
+      .iter_projections()
+      .map(|(prefix, _)| prefix.ty(decls, tcx).ty)
+      .chain([ty])
+      .all(|prefix_ty| tcx.erase_regions(prefix_ty) != target_ty)
+      .then_some(target)
+  }
+
   /// Given a `place`, returns the set of direct places it could refer to.
   ///
   /// For example, in the program:
-- 
2.43.0


From 569809241882c0cd8138535800272d7ce3e0170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:04 +0000
Subject: [PATCH 29/42] fix: keep what is written within the inner values of a
 recursive type

---
 crates/flowistry/src/infoflow/analysis.rs |  3 +-
 crates/flowistry/src/mir/placeinfo.rs     | 34 +++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index debd613..214be42 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -288,7 +288,8 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       debug!("    with deps {deps:?}");
 
       for alias in mutable_aliases {
-        state.union_into_row(self.place_info.normalize(*alias), deps);
+        let row = self.place_info.representative(*alias);
+        state.union_into_row(self.place_info.normalize(row), deps);
       }
     }
   }
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index 2c0ea27..6e931a6 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -22,6 +22,7 @@ use rustc_utils::{
     place::UNKNOWN_REGION,
   },
 };
+use smallvec::SmallVec;
 
 use super::{
   aliases::Aliases,
@@ -87,6 +88,39 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
       .get(&place, |place| place.normalize(self.tcx, self.def_id))
   }
 
+  /// Returns the place that stands for `place` in the analysis state.
+  ///
+  /// The [`children`](Self::children) of a place end where its type recurs, so everything within
+  /// is a part of the last place before. For example, if `x: Node { next: Option<Box<Node>> }`,
+  /// then `(x.next as Some).0` stands for the inner nodes.
+  pub(crate) fn representative(&self, place: Place<'tcx>) -> Place<'tcx> {
+    let mut place_ty = PlaceTy::from_ty(self.body.local_decls()[place.local].ty);
+    let mut outer_tys = SmallVec::<[Ty<'tcx>; 8]>::new();
+    let mut last = 0;
+    for (i, elem) in place.projection.iter().enumerate() {
+      if matches!(elem, PlaceElem::Deref) && !place_ty.ty.is_box() {
+        outer_tys.clear();
+      } else {
+        outer_tys.push(self.tcx.erase_regions(place_ty.ty));
+      }
+      place_ty = place_ty.projection_ty(self.tcx, elem);
+      if !matches!(
+        elem,
+        PlaceElem::Field(..)
+          | PlaceElem::Deref
+          | PlaceElem::Index(..)
+          | PlaceElem::ConstantIndex { .. }
+      ) {
+        continue;
+      }
+      if outer_tys.contains(&self.tcx.erase_regions(place_ty.ty)) {
+        return Place::make(place.local, &place.projection[.. last], self.tcx);
+      }
+      last = i + 1;
+    }
+    place
+  }
+
   /// Computes the aliases of a place (cached).
   ///
   /// For example, if `x = &y`, then `*x` aliases `y`.
-- 
2.43.0


From cdacc964f09f20c791ac411d76f2fda260616fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:02 +0000
Subject: [PATCH 30/42] fix: do not recurse into the default body of an
 overridden trait method

---
 crates/flowistry/src/infoflow/recursive.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 546640d..73fef83 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -5,7 +5,7 @@ use std::iter;
 use log::{debug, info};
 use rustc_middle::{
   mir::*,
-  ty::{ClosureKind, GenericArgKind, TyKind},
+  ty::{ClosureKind, GenericArgKind, Instance, TyKind},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_utils::{
@@ -96,6 +96,17 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
     //   return false;
     // }
 
+    // The default body of a trait's method says nothing about an implementation's own.
+    if tcx.trait_of_assoc(*def_id).is_some() {
+      let typing_env = self.body.typing_env(tcx);
+      let generic_args = tcx.erase_regions(*generic_args);
+      let instance = Instance::try_resolve(tcx, typing_env, *def_id, generic_args);
+      if !matches!(instance, Ok(Some(instance)) if instance.def_id() == *def_id) {
+        debug!("  Func is a trait method that may be overridden");
+        return false;
+      }
+    }
+
     let parent_arg_places = utils::arg_places(parent_args);
     let any_closure_inputs = parent_arg_places.iter().any(|(_, place)| {
       let ty = place.ty(self.body.local_decls(), tcx).ty;
-- 
2.43.0


From 94bb28f6679b33ddc09025e058c17ebb13c36512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:06 +0000
Subject: [PATCH 31/42] fix: order ranges by their numbers of lines and
 columns, not by the text of these numbers

---
 ide/src/range.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index f9e4fdf..0938cff 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -112,7 +112,10 @@ export class RangeTree<T> {
 
     ["contained", "containing", "overlapping"].forEach((k) => {
       let final_ = final as any;
-      final_[k] = _.orderBy(final_[k], ({ range }) => [range.end.line - range.start.line, range.end.column - range.start.column]);
+      final_[k] = _.orderBy(final_[k], [
+        ({ range }) => range.end.line - range.start.line,
+        ({ range }) => range.end.column - range.start.column,
+      ]);
     });
 
     console.log("Querying", query, "for result", final);
-- 
2.43.0


From ad17fb168fd38a5a36497a07d1a8a553fb48ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:06 +0000
Subject: [PATCH 32/42] fix: wait for the answer whether a directory has a
 Cargo.toml

---
 ide/src/setup.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1bd24e3..1dad0dc 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -156,9 +156,9 @@ let findWorkspaceRoot = async (): Promise<string | null> => {
   let folderSubdirTil = (idx: number) =>
     path.join(folderPath, ...components.slice(0, idx));
   let prefixHasToml = await Promise.all(
-    _.range(components.length).map((idx) => ({
+    _.range(components.length).map(async (idx) => ({
       idx,
-      has: hasCargoToml(folderSubdirTil(idx)),
+      has: await hasCargoToml(folderSubdirTil(idx)),
     }))
   );
   let entry = prefixHasToml.find(({ has }) => has);
-- 
2.43.0


From 7311feea0ffea421458e7620d5a0230371c02e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:06 +0000
Subject: [PATCH 33/42] fix: ask for the body that contains the selection, not
 for the one at its anchor

---
 ide/src/focus.ts | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 161ecd5..4a16d21 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -40,13 +40,13 @@ class FocusBodyState {
 
   static load = async (
     doc: vscode.TextDocument,
-    selection: vscode.Selection
+    body: Range
   ): Promise<FlowistryResult<FocusBodyState>> => {
     let cmd = [
       "focus",
       doc.fileName,
-      selection.anchor.line.toString(),
-      selection.anchor.character.toString(),
+      body.start.line.toString(),
+      body.start.column.toString(),
     ];
     let focus_res = await globals.call_flowistry<Focus>(cmd);
     console.log(focus_res);
@@ -184,12 +184,9 @@ class FocusDocumentState {
     }
 
     // If the user has selected a body, get its FocusBodyState.
-    let body = result.containing[0].value;
+    let { range, value: body } = result.containing[0];
     if (body.get() === null) {
-      let body_state_res = await FocusBodyState.load(
-        editor.document,
-        editor.selection
-      );
+      let body_state_res = await FocusBodyState.load(editor.document, range);
       body.set(body_state_res);
       return body_state_res;
     } else {
-- 
2.43.0


From 52e91eb08a1ed9d7f36ce4b39b1b5ac3d37667fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:23 +0000
Subject: [PATCH 34/42] fix: remove the highlights of all visible editors, not
 only of the active one

---
 ide/src/focus.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 4a16d21..903bbc0 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -304,10 +304,7 @@ export class FocusMode {
   };
 
   private clear_ranges = () => {
-    let editor = vscode.window.activeTextEditor;
-    if (editor) {
-      clear_ranges(editor);
-    }
+    vscode.window.visibleTextEditors.forEach(clear_ranges);
   };
 
   private get_doc_state = async (
-- 
2.43.0


From c8c8493a027335bca172f7db131bebce27657b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:23 +0000
Subject: [PATCH 35/42] fix: ask again for a body after the analysis has failed
 for it

---
 ide/src/focus.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 903bbc0..85699c3 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -187,7 +187,10 @@ class FocusDocumentState {
     let { range, value: body } = result.containing[0];
     if (body.get() === null) {
       let body_state_res = await FocusBodyState.load(editor.document, range);
-      body.set(body_state_res);
+      // A failure may be a passing one, so it is not kept.
+      if (is_ok(body_state_res)) {
+        body.set(body_state_res);
+      }
       return body_state_res;
     } else {
       return body.get();
-- 
2.43.0


From d076c6405d271b14eaf154c409e2ad44c280f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:41 +0000
Subject: [PATCH 36/42] fix: a body that is selected exactly contains the
 selection, too

---
 ide/src/range.ts | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index 0938cff..838c8cc 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -101,13 +101,11 @@ export class RangeTree<T> {
 
     result.forEach(([interval, value]) => {
       let range = interval_to_range(interval, this.filename, this.doc);
-      if (is_contained(interval, query)) {
-        final.contained.push({ range, value });
-      } else if (is_contained(query, interval)) {
-        final.containing.push({ range, value });
-      } else {
-        final.overlapping.push({ range, value });
-      }
+      let contained = is_contained(interval, query);
+      let containing = is_contained(query, interval);
+      if (contained) final.contained.push({ range, value });
+      if (containing) final.containing.push({ range, value });
+      if (!contained && !containing) final.overlapping.push({ range, value });
     });
 
     ["contained", "containing", "overlapping"].forEach((k) => {
-- 
2.43.0


From 3a8f5ee38b2af903c1d64b78061db8044805c1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:29 +0000
Subject: [PATCH 37/42] fix: drop the tool's answers after the document was
 edited or focus mode was left

---
 ide/src/focus.ts | 59 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 85699c3..0d5824a 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -153,7 +153,8 @@ class FocusDocumentState {
   };
 
   on_change_selection = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
     let body_state_res = await this.get_body_state(editor);
     if (body_state_res === null) {
@@ -165,7 +166,9 @@ class FocusDocumentState {
     }
 
     let body_state = body_state_res.value;
-    body_state.render(editor);
+    if (is_current()) {
+      body_state.render(editor);
+    }
     return ok(null);
   };
 
@@ -226,7 +229,8 @@ class FocusDocumentState {
   };
 
   select = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
     let body_state_res = await this.get_body_state(editor);
     if (body_state_res === null) {
@@ -235,7 +239,9 @@ class FocusDocumentState {
       return body_state_res;
     }
 
-    body_state_res.value.render(editor, true);
+    if (is_current()) {
+      body_state_res.value.render(editor, true);
+    }
     return ok(null);
   };
 }
@@ -258,6 +264,10 @@ export class FocusMode {
   mode: StatusBarState = "idle";
   state: Map<string, FocusDocumentState | "notfound"> = new Map();
 
+  // Changes whenever what the tool is computing becomes obsolete, because the
+  // document was edited or because focus mode was left.
+  epoch: number = 0;
+
   doc_save_callback?: vscode.Disposable;
   doc_edit_callback?: vscode.Disposable;
   selection_change_callback?: vscode.Disposable;
@@ -275,6 +285,7 @@ export class FocusMode {
 
         if (event.document === doc && doc.isDirty) {
           this.state.clear();
+          this.epoch += 1;
 
           if (this.mode !== "idle") {
             this.set_mode("unsaved");
@@ -306,6 +317,20 @@ export class FocusMode {
     globals.status_bar.set_state(mode);
   };
 
+  // To be asked after waiting for the tool: whether its answer is still wanted.
+  private current_epoch = () => {
+    let epoch = this.epoch;
+    return () => {
+      if (epoch === this.epoch) {
+        return true;
+      }
+
+      // Running the tool has changed the status bar.
+      this.set_mode(this.mode);
+      return false;
+    };
+  };
+
   private clear_ranges = () => {
     vscode.window.visibleTextEditors.forEach(clear_ranges);
   };
@@ -319,11 +344,15 @@ export class FocusMode {
     }
 
     this.set_mode("loading");
+    let is_current = this.current_epoch();
 
     let filename = editor.document.fileName;
     let doc_state_opt = this.state.get(filename);
     if (!doc_state_opt) {
       let doc_state_res = await FocusDocumentState.load(editor);
+      if (!is_current()) {
+        return null;
+      }
       if (is_ok(doc_state_res)) {
         this.state.set(filename, doc_state_res.value);
       } else {
@@ -374,7 +403,12 @@ export class FocusMode {
       return;
     }
 
-    let result = await doc_state.on_change_selection(editor);
+    let is_current = this.current_epoch();
+    let result = await doc_state.on_change_selection(editor, is_current);
+    if (!is_current()) {
+      return;
+    }
+
     await this.handle_analysis_result(result, userActivated);
   };
 
@@ -399,7 +433,8 @@ export class FocusMode {
     (
       f: (
         _editor: vscode.TextEditor,
-        _state: FocusDocumentState
+        _state: FocusDocumentState,
+        _is_current: () => boolean
       ) => Promise<FlowistryResult<null>>
     ) =>
     async () => {
@@ -422,7 +457,12 @@ export class FocusMode {
         return;
       }
 
-      let result = await f(editor, doc_state);
+      let is_current = this.current_epoch();
+      let result = await f(editor, doc_state, is_current);
+      if (!is_current()) {
+        return;
+      }
+
       await this.handle_analysis_result(result, true);
       await this.update_slice(true);
     };
@@ -433,8 +473,8 @@ export class FocusMode {
   focus_unmark = this.focus_subcommand((editor, doc_state) =>
     doc_state.unset_mark(editor)
   );
-  focus_select = this.focus_subcommand((editor, doc_state) =>
-    doc_state.select(editor)
+  focus_select = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.select(editor, is_current)
   );
 
   focus = async () => {
@@ -443,6 +483,7 @@ export class FocusMode {
       this.register_callbacks();
       await this.update_slice(true);
     } else {
+      this.epoch += 1;
       this.set_mode("idle");
       this.clear_ranges();
       this.dispose_callbacks();
-- 
2.43.0


From 1abc2f5189ad861ee16faf9016049d74d4ae49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:21 +0000
Subject: [PATCH 38/42] fix: show the slice of what the user selects or saves
 while the tool runs

---
 ide/src/focus.ts | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 0d5824a..3929c06 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -264,6 +264,9 @@ export class FocusMode {
   mode: StatusBarState = "idle";
   state: Map<string, FocusDocumentState | "notfound"> = new Map();
 
+  // Whether the slice has to be updated again once the tool has finished.
+  outdated: boolean = false;
+
   // Changes whenever what the tool is computing becomes obsolete, because the
   // document was edited or because focus mode was left.
   epoch: number = 0;
@@ -307,6 +310,12 @@ export class FocusMode {
         return;
       }
 
+      // The tool itself saves the document before it runs.
+      if (this.mode === "loading") {
+        this.outdated = true;
+        return;
+      }
+
       this.set_mode("active");
       this.update_slice();
     });
@@ -339,11 +348,16 @@ export class FocusMode {
     editor: vscode.TextEditor,
     userActivated: boolean = false
   ): Promise<FocusDocumentState | null> => {
+    if (this.mode === "loading") {
+      this.outdated = true;
+    }
+
     if (this.mode !== "active" && this.mode !== "notfound") {
       return null;
     }
 
     this.set_mode("loading");
+    this.outdated = false;
     let is_current = this.current_epoch();
 
     let filename = editor.document.fileName;
@@ -410,6 +424,11 @@ export class FocusMode {
     }
 
     await this.handle_analysis_result(result, userActivated);
+
+    // The user may have selected something else in the meantime.
+    if (this.outdated) {
+      await this.update_slice();
+    }
   };
 
   private register_callbacks() {
-- 
2.43.0


From f23cc9b9472481a2febb82e1e891fa236bea964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:12 +0000
Subject: [PATCH 39/42] fix: analyze a document again when it was edited while
 it wasn't active

---
 ide/src/focus.ts | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 3929c06..7901829 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -128,11 +128,15 @@ export class Cell<T> {
 class FocusDocumentState {
   bodies: RangeTree<Cell<FlowistryResult<FocusBodyState> | null>>;
 
+  // The version of the document that was analyzed.
+  version: number;
+
   // NOTE: a previous version of this code tried to save a reference to
   // vscode.TextEditor to reduce API complexity. But those references were
   // seemingly invalidated after changing documents, so the editor must be
   // passed in anew each time.
-  constructor(spans: Spans, doc: vscode.TextDocument) {
+  constructor(spans: Spans, doc: vscode.TextDocument, version: number) {
+    this.version = version;
     this.bodies = new RangeTree(
       spans.spans.map((range) => ({ range, value: new Cell(null) })),
       doc
@@ -142,6 +146,7 @@ class FocusDocumentState {
   static load = async (
     editor: vscode.TextEditor
   ): Promise<FlowistryResult<FocusDocumentState>> => {
+    let { version } = editor.document;
     let cmd = ["spans", editor.document.fileName];
     let spans = await globals.call_flowistry<Spans>(cmd);
     console.log("spans", spans);
@@ -149,7 +154,7 @@ class FocusDocumentState {
       return spans;
     }
 
-    return ok(new FocusDocumentState(spans.value, editor.document));
+    return ok(new FocusDocumentState(spans.value, editor.document, version));
   };
 
   on_change_selection = async (
@@ -362,7 +367,10 @@ export class FocusMode {
 
     let filename = editor.document.fileName;
     let doc_state_opt = this.state.get(filename);
-    if (!doc_state_opt) {
+    let is_stale =
+      doc_state_opt instanceof FocusDocumentState &&
+      doc_state_opt.version !== editor.document.version;
+    if (!doc_state_opt || is_stale) {
       let doc_state_res = await FocusDocumentState.load(editor);
       if (!is_current()) {
         return null;
-- 
2.43.0


From 732f26b3601b34fabf3c38b665ae5338eab50e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:15 +0000
Subject: [PATCH 40/42] fix: leave the loading state before a message about an
 error, which may stay open

---
 ide/src/focus.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 7901829..4beca95 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -381,8 +381,8 @@ export class FocusMode {
         if (doc_state_res.type == "FileNotFound") {
           this.state.set(filename, "notfound");
         } else {
-          if (userActivated) await show_error(doc_state_res);
           this.set_mode("error");
+          if (userActivated) await show_error(doc_state_res);
           return null;
         }
       }
@@ -402,8 +402,8 @@ export class FocusMode {
     userActivated: boolean = false
   ) => {
     if (!is_ok(result)) {
-      if (userActivated) await show_error(result);
       this.set_mode("error");
+      if (userActivated) await show_error(result);
     } else {
       await hide_error();
       this.set_mode("active");
-- 
2.43.0


From 1f2b95a3e1646164c280cf155614f7a9ed1d8346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:18 +0000
Subject: [PATCH 41/42] fix: look again for a file that was edited while it
 wasn't active

---
 ide/src/focus.ts | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 4beca95..907dab1 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -128,15 +128,11 @@ export class Cell<T> {
 class FocusDocumentState {
   bodies: RangeTree<Cell<FlowistryResult<FocusBodyState> | null>>;
 
-  // The version of the document that was analyzed.
-  version: number;
-
   // NOTE: a previous version of this code tried to save a reference to
   // vscode.TextEditor to reduce API complexity. But those references were
   // seemingly invalidated after changing documents, so the editor must be
   // passed in anew each time.
-  constructor(spans: Spans, doc: vscode.TextDocument, version: number) {
-    this.version = version;
+  constructor(spans: Spans, doc: vscode.TextDocument) {
     this.bodies = new RangeTree(
       spans.spans.map((range) => ({ range, value: new Cell(null) })),
       doc
@@ -146,7 +142,6 @@ class FocusDocumentState {
   static load = async (
     editor: vscode.TextEditor
   ): Promise<FlowistryResult<FocusDocumentState>> => {
-    let { version } = editor.document;
     let cmd = ["spans", editor.document.fileName];
     let spans = await globals.call_flowistry<Spans>(cmd);
     console.log("spans", spans);
@@ -154,7 +149,7 @@ class FocusDocumentState {
       return spans;
     }
 
-    return ok(new FocusDocumentState(spans.value, editor.document, version));
+    return ok(new FocusDocumentState(spans.value, editor.document));
   };
 
   on_change_selection = async (
@@ -267,7 +262,11 @@ let valid_document = (doc: vscode.TextDocument): boolean => {
  */
 export class FocusMode {
   mode: StatusBarState = "idle";
-  state: Map<string, FocusDocumentState | "notfound"> = new Map();
+  // With the version of the document that was analyzed.
+  state: Map<
+    string,
+    { version: number; state: FocusDocumentState | "notfound" }
+  > = new Map();
 
   // Whether the slice has to be updated again once the tool has finished.
   outdated: boolean = false;
@@ -366,20 +365,18 @@ export class FocusMode {
     let is_current = this.current_epoch();
 
     let filename = editor.document.fileName;
-    let doc_state_opt = this.state.get(filename);
-    let is_stale =
-      doc_state_opt instanceof FocusDocumentState &&
-      doc_state_opt.version !== editor.document.version;
-    if (!doc_state_opt || is_stale) {
+    let version = editor.document.version;
+    if (this.state.get(filename)?.version !== version) {
       let doc_state_res = await FocusDocumentState.load(editor);
       if (!is_current()) {
         return null;
       }
+
       if (is_ok(doc_state_res)) {
-        this.state.set(filename, doc_state_res.value);
+        this.state.set(filename, { version, state: doc_state_res.value });
       } else {
         if (doc_state_res.type == "FileNotFound") {
-          this.state.set(filename, "notfound");
+          this.state.set(filename, { version, state: "notfound" });
         } else {
           this.set_mode("error");
           if (userActivated) await show_error(doc_state_res);
@@ -388,7 +385,7 @@ export class FocusMode {
       }
     }
 
-    let state = this.state.get(filename)!;
+    let { state } = this.state.get(filename)!;
     if (state == "notfound") {
       this.set_mode("notfound");
       return null;
-- 
2.43.0


From c31db86ed5dfc741fab38b39b4665dcefad7716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:25 +0000
Subject: [PATCH 42/42] fix: analyze all documents again after one of them was
 edited

---
 ide/src/focus.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 907dab1..4fe2dff 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -262,12 +262,15 @@ let valid_document = (doc: vscode.TextDocument): boolean => {
  */
 export class FocusMode {
   mode: StatusBarState = "idle";
-  // With the version of the document that was analyzed.
+  // With the revision of the documents that was analyzed.
   state: Map<
     string,
-    { version: number; state: FocusDocumentState | "notfound" }
+    { revision: number; state: FocusDocumentState | "notfound" }
   > = new Map();
 
+  // How often any document was edited.
+  revision: number = 0;
+
   // Whether the slice has to be updated again once the tool has finished.
   outdated: boolean = false;
 
@@ -283,6 +286,10 @@ export class FocusMode {
     // pause rendering if there are unsaved changes in the doc
     this.doc_edit_callback = vscode.workspace.onDidChangeTextDocument(
       (event) => {
+        if (valid_document(event.document)) {
+          this.revision += 1;
+        }
+
         let editor = vscode.window.activeTextEditor!;
         let doc = editor.document;
 
@@ -365,18 +372,18 @@ export class FocusMode {
     let is_current = this.current_epoch();
 
     let filename = editor.document.fileName;
-    let version = editor.document.version;
-    if (this.state.get(filename)?.version !== version) {
+    let revision = this.revision;
+    if (this.state.get(filename)?.revision !== revision) {
       let doc_state_res = await FocusDocumentState.load(editor);
       if (!is_current()) {
         return null;
       }
 
       if (is_ok(doc_state_res)) {
-        this.state.set(filename, { version, state: doc_state_res.value });
+        this.state.set(filename, { revision, state: doc_state_res.value });
       } else {
         if (doc_state_res.type == "FileNotFound") {
-          this.state.set(filename, { version, state: "notfound" });
+          this.state.set(filename, { revision, state: "notfound" });
         } else {
           this.set_mode("error");
           if (userActivated) await show_error(doc_state_res);
-- 
2.43.0

