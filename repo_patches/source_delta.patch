From cf93b57fca77819085f9aec736c10080d16d7e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:18 +0000
Subject: [PATCH 01/23] fix: generate_ns! no longer matches names which merely
 share a textual prefix with the namespace

---
 parser/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/config.rs b/parser/src/config.rs
index 925039c..393810b 100644
--- a/parser/src/config.rs
+++ b/parser/src/config.rs
@@ -371,7 +371,9 @@ impl IncludeCppConfig {
                 Allowlist::All => true,
                 Allowlist::Specific(items) => items.iter().any(|entry| match entry {
                     AllowlistEntry::Item(i) => i == cpp_name,
-                    AllowlistEntry::Namespace(ns) => cpp_name.starts_with(ns),
+                    AllowlistEntry::Namespace(ns) => cpp_name
+                        .strip_prefix(ns.as_str())
+                        .is_some_and(|rest| rest.starts_with("::")),
                 }),
             }
     }
-- 
2.43.0


From 0d3deb6735b35db8a4239ff350bb6018067d9c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:18 +0000
Subject: [PATCH 02/23] fix: consider array element types when deciding if a
 struct can be POD

---
 engine/src/conversion/analysis/pod/byvalue_checker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/byvalue_checker.rs b/engine/src/conversion/analysis/pod/byvalue_checker.rs
index 6e0dd62..557147d 100644
--- a/engine/src/conversion/analysis/pod/byvalue_checker.rs
+++ b/engine/src/conversion/analysis/pod/byvalue_checker.rs
@@ -256,11 +256,14 @@ impl ByValueChecker {
     fn get_field_types(def: &ItemStruct) -> Vec<QualifiedName> {
         let mut results = Vec::new();
         for f in &def.fields {
-            let fty = &f.ty;
+            // An array is only as safe as its elements.
+            let mut fty = &f.ty;
+            while let Type::Array(arr) = fty {
+                fty = &arr.elem;
+            }
             if let Type::Path(p) = fty {
                 results.push(QualifiedName::from_type_path(p));
             }
-            // TODO handle anything else which bindgen might spit out, e.g. arrays?
         }
         results
     }
-- 
2.43.0


From 6b01640f5e12c59474263b6ee1f77d8b59a3c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 03/23] fix: a typedef to a type which isn't safe to be POD no
 longer makes its containing struct POD

---
 .../conversion/analysis/pod/byvalue_checker.rs   | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/byvalue_checker.rs b/engine/src/conversion/analysis/pod/byvalue_checker.rs
index 557147d..712505d 100644
--- a/engine/src/conversion/analysis/pod/byvalue_checker.rs
+++ b/engine/src/conversion/analysis/pod/byvalue_checker.rs
@@ -201,7 +201,6 @@ impl ByValueChecker {
         while !requests.is_empty() {
             let ty_id = requests.remove(requests.len() - 1);
             let deets = self.results.get_mut(&ty_id);
-            let mut alias_to_consider = None;
             match deets {
                 None => {
                     return Err(format!(
@@ -216,20 +215,13 @@ impl ByValueChecker {
                         requests.extend_from_slice(&deets.dependent_structs);
                     }
                     PodState::IsAlias(target_type) => {
-                        alias_to_consider = Some(target_type.clone());
+                        // An alias is POD if the type to which it refers
+                        // turns out to be; otherwise that's an error.
+                        requests.push(target_type.clone());
+                        deets.state = PodState::IsPod;
                     }
                 },
             }
-            // Do the following outside the match to avoid borrow checker violation.
-            if let Some(alias) = alias_to_consider {
-                match self.results.get(&alias) {
-                    None => requests.extend_from_slice(&[alias, ty_id]), // try again after resolving alias target
-                    Some(alias_target_deets) => {
-                        self.results.get_mut(&ty_id).unwrap().state =
-                            alias_target_deets.state.clone();
-                    }
-                }
-            }
         }
         Ok(())
     }
-- 
2.43.0


From 73bca8df7a323a0a5909a9eebc9ffee89c3c27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:44 +0000
Subject: [PATCH 04/23] fix: generate_pod! works for structs listed before the
 types of their fields

---
 .../analysis/pod/byvalue_checker.rs           | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/byvalue_checker.rs b/engine/src/conversion/analysis/pod/byvalue_checker.rs
index 712505d..6dad4a4 100644
--- a/engine/src/conversion/analysis/pod/byvalue_checker.rs
+++ b/engine/src/conversion/analysis/pod/byvalue_checker.rs
@@ -16,7 +16,7 @@ use crate::{
     types::{Namespace, QualifiedName},
 };
 use autocxx_parser::IncludeCppConfig;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use syn::{ItemStruct, Type};
 
 #[derive(Clone)]
@@ -129,11 +129,31 @@ impl ByValueChecker {
                 _ => {}
             }
         }
+        // A struct may be listed before the types of its fields, for instance
+        // if they're in different namespaces. Ingest each struct only once
+        // there's nothing outstanding on which it depends.
+        let mut pending = Vec::new();
         for api in apis.iter() {
             if let Api::Struct { details, .. } = api {
-                byvalue_checker.ingest_struct(&details.item, api.name().get_namespace())
+                pending.push((api.name(), &details.item));
             }
         }
+        while !pending.is_empty() {
+            let names: HashSet<_> = pending.iter().map(|(name, _)| *name).collect();
+            let (mut ready, mut blocked): (Vec<_>, Vec<_>) =
+                pending.into_iter().partition(|(_, item)| {
+                    !Self::get_field_types(item)
+                        .iter()
+                        .any(|ty| names.contains(ty))
+                });
+            if ready.is_empty() {
+                std::mem::swap(&mut ready, &mut blocked);
+            }
+            for (name, item) in ready {
+                byvalue_checker.ingest_struct(item, name.get_namespace())
+            }
+            pending = blocked;
+        }
         let pod_requests = config
             .get_pod_requests()
             .iter()
-- 
2.43.0


From 5f862fe1a268e3dff06d1e1d0782817591dd116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:59 +0000
Subject: [PATCH 05/23] fix: user-declared assignment operators suppress
 implicit copy and move constructors

bindgen recognizes assignment operators by name, but our renaming callback
hid that name from it, so none was ever seen. Move and copy assignment were
also confused with one another, and a move assignment operator did not
suppress the implicit copy constructor.
---
 .../analysis/fun/implicit_constructors.rs        |  6 ++++--
 engine/src/conversion/analysis/fun/mod.rs        | 16 +++++++++-------
 engine/src/parse_callbacks.rs                    |  4 ++++
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/implicit_constructors.rs b/engine/src/conversion/analysis/fun/implicit_constructors.rs
index 5a503b7..e9cf1e1 100644
--- a/engine/src/conversion/analysis/fun/implicit_constructors.rs
+++ b/engine/src/conversion/analysis/fun/implicit_constructors.rs
@@ -452,7 +452,9 @@ pub(super) fn find_constructors_present(
                     if have_defaulted {
                         // TODO: For https://github.com/google/autocxx/issues/815, ignore this if
                         // the relevant (based on bases_are_const) copy constructor is explicitly defaulted.
-                        let class_allows = explicit_move.is_none() && !has_rvalue_reference_fields;
+                        let class_allows = explicit_move.is_none()
+                            && find_explicit(ExplicitKind::MoveAssignmentOperator).is_none()
+                            && !has_rvalue_reference_fields;
                         let bases_allow = bases_items_found.iter().all(|items_found| {
                             items_found.destructor.callable_subclass()
                                 && (items_found.const_copy_constructor.callable_subclass()
@@ -610,7 +612,7 @@ fn find_explicit_items(
                 Some(SpecialMemberKind::AssignmentOperator)
             ) =>
             {
-                let is_move_assignment_operator = !any_input_is_rvalue_reference(&fun.inputs);
+                let is_move_assignment_operator = any_input_is_rvalue_reference(&fun.inputs);
                 merge_fun(
                     impl_for.clone(),
                     if is_move_assignment_operator {
diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 6ad07ef..29c6a58 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -1127,15 +1127,16 @@ impl<'a> FnAnalyzer<'a> {
         if fun.variadic {
             set_ignore_reason(ConvertErrorFromCpp::Variadic);
         }
+        let is_assignment_operator = matches!(
+            fun.special_member,
+            Some(SpecialMemberKind::AssignmentOperator)
+        );
         if let Some(problem) = bads.into_iter().next() {
             match problem {
                 Ok(_) => panic!("No error in the error"),
                 Err(problem) => set_ignore_reason(problem),
             }
-        } else if matches!(
-            fun.special_member,
-            Some(SpecialMemberKind::AssignmentOperator)
-        ) {
+        } else if is_assignment_operator {
             // Be careful with the order of this if-else tree. Anything above here means we won't
             // treat it as an assignment operator, but anything below we still consider when
             // deciding which other C++ special member functions are implicitly defined.
@@ -1225,8 +1226,9 @@ impl<'a> FnAnalyzer<'a> {
 
         // The following sections reject some types of function because of the arrangement
         // of Rust references. We could lift these restrictions when/if we switch to using
-        // CppRef to represent C++ references.
-        if return_analysis.was_reference {
+        // CppRef to represent C++ references. (Assignment operators are already
+        // ignored for a reason which we mustn't override.)
+        if return_analysis.was_reference && !is_assignment_operator {
             // cxx only allows functions to return a reference if they take exactly
             // one reference as a parameter. Let's see.
             let num_input_references = param_details.iter().filter(|pd| pd.has_lifetime).count();
@@ -1239,7 +1241,7 @@ impl<'a> FnAnalyzer<'a> {
                 ));
             }
         }
-        if return_analysis.was_mutable_reference {
+        if return_analysis.was_mutable_reference && !is_assignment_operator {
             // This one's a bit more subtle. We can't have:
             //    fn foo(thing: &Thing) -> &mut OtherThing
             // because Rust doesn't allow it.
diff --git a/engine/src/parse_callbacks.rs b/engine/src/parse_callbacks.rs
index 2c766e5..ddc48bb 100644
--- a/engine/src/parse_callbacks.rs
+++ b/engine/src/parse_callbacks.rs
@@ -284,6 +284,10 @@ impl ParseCallbacks for AutocxxParseCallbacks {
         // if we generate an alternative implementation of a method
         // with a given name.
         match _item_info.kind {
+            // bindgen needs to recognize assignment operators by this name,
+            // and we need them in order to work out which implicit
+            // constructors exist.
+            ItemKind::Function if _item_info.name == "operator=" => None,
             ItemKind::Function => Some(format!("{}_bindgen_original", _item_info.name)),
             _ => None,
         }
-- 
2.43.0


From 577be21d7904b8a140988d853daf79eeb3a51f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:59 +0000
Subject: [PATCH 06/23] fix: don't instantiate CxxVector of types with
 inaccessible destructors

---
 engine/src/conversion/codegen_rs/impl_item_creator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_rs/impl_item_creator.rs b/engine/src/conversion/codegen_rs/impl_item_creator.rs
index 89ef896..ba764f9 100644
--- a/engine/src/conversion/codegen_rs/impl_item_creator.rs
+++ b/engine/src/conversion/codegen_rs/impl_item_creator.rs
@@ -32,7 +32,7 @@ pub(crate) fn create_impl_items(
             }),
         ]);
     }
-    if movable {
+    if movable && destroyable {
         results.push(Item::Impl(parse_quote! {
             impl CxxVector<#id> {}
         }))
-- 
2.43.0


From df87231bdb33d738f09bd3df5a4b14d269f0da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:59 +0000
Subject: [PATCH 07/23] fix: a type with an indestructible member has no
 implicit move constructor

---
 .../src/conversion/analysis/fun/implicit_constructors.rs   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/implicit_constructors.rs b/engine/src/conversion/analysis/fun/implicit_constructors.rs
index e9cf1e1..577d68c 100644
--- a/engine/src/conversion/analysis/fun/implicit_constructors.rs
+++ b/engine/src/conversion/analysis/fun/implicit_constructors.rs
@@ -530,9 +530,10 @@ pub(super) fn find_constructors_present(
                             items_found.destructor.callable_subclass()
                                 && items_found.move_constructor.callable_subclass()
                         });
-                        let members_allow = fields_items_found
-                            .iter()
-                            .all(|items_found| items_found.move_constructor.callable_any());
+                        let members_allow = fields_items_found.iter().all(|items_found| {
+                            items_found.destructor.callable_any()
+                                && items_found.move_constructor.callable_any()
+                        });
                         if bases_allow && members_allow {
                             // TODO: For https://github.com/google/autocxx/issues/815, grab the
                             // visibility from an explicit default if present.
-- 
2.43.0


From 2350a47f6c5be47af01e3d88afa066d0c379928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:13 +0000
Subject: [PATCH 08/23] fix: work out the special members of array elements
 before those of the containing type

---
 .../analysis/fun/implicit_constructors.rs      | 18 +++++++++---------
 engine/src/conversion/analysis/pod/mod.rs      |  9 ++++++---
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/implicit_constructors.rs b/engine/src/conversion/analysis/fun/implicit_constructors.rs
index 577d68c..f418887 100644
--- a/engine/src/conversion/analysis/fun/implicit_constructors.rs
+++ b/engine/src/conversion/analysis/fun/implicit_constructors.rs
@@ -246,16 +246,16 @@ pub(super) fn find_constructors_present(
             let fields_items_found: Vec<_> = field_info
                 .iter()
                 .filter_map(|field_info| match field_info.type_kind {
-                    TypeKind::Regular | TypeKind::SubclassHolder(_) => match field_info.ty {
-                        Type::Path(ref qn) => get_items_found(&QualifiedName::from_type_path(qn)),
-                        Type::Array(TypeArray { ref elem, .. }) => match elem.as_ref() {
-                            Type::Path(ref qn) => {
-                                get_items_found(&QualifiedName::from_type_path(qn))
-                            }
+                    TypeKind::Regular | TypeKind::SubclassHolder(_) => {
+                        let mut ty = &field_info.ty;
+                        while let Type::Array(TypeArray { elem, .. }) = ty {
+                            ty = elem.as_ref();
+                        }
+                        match ty {
+                            Type::Path(qn) => get_items_found(&QualifiedName::from_type_path(qn)),
                             _ => None,
-                        },
-                        _ => None,
-                    },
+                        }
+                    }
                     // TODO: https://github.com/google/autocxx/issues/865 Figure out how to
                     // differentiate between pointers and references coming from C++. Pointers
                     // have a default constructor.
diff --git a/engine/src/conversion/analysis/pod/mod.rs b/engine/src/conversion/analysis/pod/mod.rs
index 47baade..e7e4e54 100644
--- a/engine/src/conversion/analysis/pod/mod.rs
+++ b/engine/src/conversion/analysis/pod/mod.rs
@@ -245,12 +245,15 @@ fn get_struct_field_types(
                     .unwrap_or(false)
                 {
                     field_deps.extend(r.types_encountered);
-                    if let Type::Path(typ) = &r.ty {
+                    let mut definition_ty = &r.ty;
+                    while let Type::Array(arr) = definition_ty {
+                        definition_ty = &arr.elem;
+                    }
+                    if let Type::Path(typ) = definition_ty {
                         // Later analyses need to know about the field
                         // types where we need full definitions, as opposed
                         // to just declarations. That means just the outermost
-                        // type path.
-                        // TODO: consider arrays.
+                        // type path, or that of the elements of an array.
                         field_definition_deps.insert(QualifiedName::from_type_path(typ));
                     }
                     field_info.push(FieldInfo {
-- 
2.43.0


From 392c2cfc368ee2e71e29bda4251268084d2b234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:33 +0000
Subject: [PATCH 09/23] fix: a class with a pure virtual destructor is abstract

---
 .../src/conversion/analysis/abstract_types.rs | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/engine/src/conversion/analysis/abstract_types.rs b/engine/src/conversion/analysis/abstract_types.rs
index 7a9986f..a1b653e 100644
--- a/engine/src/conversion/analysis/abstract_types.rs
+++ b/engine/src/conversion/analysis/abstract_types.rs
@@ -6,6 +6,7 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use autocxx_bindgen::callbacks::Virtualness;
 use indexmap::map::IndexMap as HashMap;
 use syn::{punctuated::Punctuated, token::Comma};
 
@@ -106,6 +107,26 @@ pub(crate) fn mark_types_abstract(apis: ApiVec<FnPrePhase2>) -> ApiVec<FnPrePhas
                 }
                 _ => {}
             }
+        } else if let Api::Function {
+            fun,
+            analysis:
+                FnAnalysis {
+                    kind:
+                        FnKind::TraitMethod {
+                            kind: TraitMethodKind::Destructor,
+                            impl_for,
+                            ..
+                        },
+                    ..
+                },
+            ..
+        } = api
+        {
+            // Subclasses always have a destructor which overrides this,
+            // so this doesn't make them abstract too.
+            if matches!(fun.virtualness, Some(Virtualness::PureVirtual)) {
+                abstract_classes.insert(impl_for.clone());
+            }
         }
     }
 
-- 
2.43.0


From 41f2e704c617ce95553801201127bc8f40c86f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:01 +0000
Subject: [PATCH 10/23] fix: don't generate casts to ambiguous base classes

---
 engine/src/conversion/analysis/casts.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/analysis/casts.rs b/engine/src/conversion/analysis/casts.rs
index e1196ef..2d63771 100644
--- a/engine/src/conversion/analysis/casts.rs
+++ b/engine/src/conversion/analysis/casts.rs
@@ -7,6 +7,8 @@
 // except according to those terms.
 
 use crate::minisyn::FnArg;
+use indexmap::map::IndexMap as HashMap;
+use indexmap::set::IndexSet as HashSet;
 use itertools::Itertools;
 use quote::quote;
 use syn::parse_quote;
@@ -32,6 +34,13 @@ use super::{
 };
 
 pub(crate) fn add_casts(apis: ApiVec<PodPhase>) -> ApiVec<PodPhase> {
+    let bases: HashMap<_, _> = apis
+        .iter()
+        .filter_map(|api| match api {
+            Api::Struct { name, analysis, .. } => Some((name.name.clone(), analysis.bases.clone())),
+            _ => None,
+        })
+        .collect();
     apis.into_iter()
         .flat_map(|api| {
             let mut resultant_apis = match api {
@@ -39,7 +48,7 @@ pub(crate) fn add_casts(apis: ApiVec<PodPhase>) -> ApiVec<PodPhase> {
                     ref name,
                     details: _,
                     ref analysis,
-                } => create_casts(&name.name, analysis).collect_vec(),
+                } => create_casts(&name.name, analysis, &bases).collect_vec(),
                 _ => Vec::new(),
             };
             resultant_apis.push(api);
@@ -51,15 +60,28 @@ pub(crate) fn add_casts(apis: ApiVec<PodPhase>) -> ApiVec<PodPhase> {
 fn create_casts<'a>(
     name: &'a QualifiedName,
     analysis: &'a PodAnalysis,
+    bases: &'a HashMap<QualifiedName, HashSet<QualifiedName>>,
 ) -> impl Iterator<Item = Api<PodPhase>> + 'a {
     // Create casts only to base classes which are on the allowlist
     // because otherwise we won't know for sure whether they're abstract or not.
+    // A base which is also a base of another of our bases would be ambiguous.
     analysis
         .castable_bases
         .iter()
+        .filter(move |base| !analysis.bases.iter().any(|b| derives_from(b, base, bases)))
         .flat_map(move |base| cast_types().map(|mutable| create_cast(name, base, mutable)))
 }
 
+fn derives_from(
+    derived: &QualifiedName,
+    base: &QualifiedName,
+    bases: &HashMap<QualifiedName, HashSet<QualifiedName>>,
+) -> bool {
+    bases
+        .get(derived)
+        .is_some_and(|bs| bs.iter().any(|b| b == base || derives_from(b, base, bases)))
+}
+
 /// Iterate through the types of cast we should make.
 fn cast_types() -> impl Iterator<Item = CastMutability> {
     if SUPPORT_MUTABLE_CASTS {
-- 
2.43.0


From c138f0c24085afe14d829f42349b0f18f713ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:18 +0000
Subject: [PATCH 11/23] fix: consider fields we can't represent when working
 out implicit special members

---
 engine/src/conversion/analysis/pod/mod.rs | 29 +++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/mod.rs b/engine/src/conversion/analysis/pod/mod.rs
index e7e4e54..7fa155a 100644
--- a/engine/src/conversion/analysis/pod/mod.rs
+++ b/engine/src/conversion/analysis/pod/mod.rs
@@ -13,7 +13,7 @@ use indexmap::set::IndexSet as HashSet;
 
 use autocxx_parser::IncludeCppConfig;
 use byvalue_checker::ByValueChecker;
-use syn::{ItemStruct, Type, Visibility};
+use syn::{Field, ItemStruct, Type, Visibility};
 
 use crate::{
     conversion::{
@@ -267,12 +267,37 @@ fn get_struct_field_types(
                     });
                 }
             }
-            Err(e) => convert_errors.push(e),
+            Err(e) => {
+                // We can't represent this field, but it still influences which
+                // special members C++ provides for the struct.
+                if !is_compiler_generated_or_scalar(f) {
+                    field_info.push(FieldInfo {
+                        ty: f.ty.clone(),
+                        type_kind: type_converter::TypeKind::Regular,
+                        bindgen_opaque_data: false,
+                    });
+                }
+                convert_errors.push(e)
+            }
         };
     }
     convert_errors
 }
 
+/// Whether bindgen uses this field to represent something (base classes, vtables,
+/// bitfields, function pointers...) which is never itself an object of class type.
+fn is_compiler_generated_or_scalar(f: &Field) -> bool {
+    let generated_name = f.ident.as_ref().is_some_and(|id| {
+        let id = id.to_string();
+        id == "vtable_"
+            || id.starts_with("_base")
+            || id.starts_with("_bitfield_")
+            || id.starts_with("__bindgen_")
+    });
+    generated_name
+        || matches!(&f.ty, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Option"))
+}
+
 /// Map to whether the bases are public.
 fn get_bases(item: &ItemStruct) -> HashMap<QualifiedName, bool> {
     item.fields
-- 
2.43.0


From e24af5afa496f44e62d9c20f519e87fb9fd60af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 12/23] fix: never give two functions the same name when
 disambiguating overloads

---
 .../analysis/fun/bridge_name_tracker.rs       | 31 +++++++++++++------
 .../analysis/fun/overload_tracker.rs          | 22 ++++++++-----
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
index 4224fcb..a1c819a 100644
--- a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
+++ b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
@@ -96,17 +96,28 @@ impl BridgeNameTracker {
             .chain(type_name.iter().map(|s| s.as_str()))
             .chain(std::iter::once(found_name))
             .join("_");
-        let count = self
+        let mut count = self
             .next_cxx_bridge_name_for_prefix
-            .entry(prefix.clone())
-            .or_default();
-        if *count == 0 {
-            *count += 1;
-            prefix
-        } else {
-            let r = format!("{prefix}_autocxx{count}");
-            *count += 1;
-            r
+            .get(&prefix)
+            .copied()
+            .unwrap_or_default();
+        loop {
+            let candidate = if count == 0 {
+                prefix.clone()
+            } else {
+                format!("{prefix}_autocxx{count}")
+            };
+            count += 1;
+            // Something else may already have this name.
+            if !self
+                .next_cxx_bridge_name_for_prefix
+                .contains_key(&candidate)
+            {
+                self.next_cxx_bridge_name_for_prefix
+                    .insert(candidate.clone(), 1);
+                self.next_cxx_bridge_name_for_prefix.insert(prefix, count);
+                return candidate;
+            }
         }
     }
 }
diff --git a/engine/src/conversion/analysis/fun/overload_tracker.rs b/engine/src/conversion/analysis/fun/overload_tracker.rs
index 20165f5..761c466 100644
--- a/engine/src/conversion/analysis/fun/overload_tracker.rs
+++ b/engine/src/conversion/analysis/fun/overload_tracker.rs
@@ -43,13 +43,21 @@ impl OverloadTracker {
                 .or_default(),
             None => &mut self.offset_by_name,
         };
-        let offset = registry.entry(cpp_method_name.clone()).or_default();
-        let this_offset = *offset;
-        *offset += 1;
-        if this_offset == 0 {
-            cpp_method_name
-        } else {
-            format!("{cpp_method_name}{this_offset}")
+        let mut offset = registry.get(&cpp_method_name).copied().unwrap_or_default();
+        loop {
+            let candidate = if offset == 0 {
+                cpp_method_name.clone()
+            } else {
+                format!("{cpp_method_name}{offset}")
+            };
+            offset += 1;
+            // Something else may already have this name, e.g. C++ might
+            // contain "bob", "bob" and "bob1".
+            if !registry.contains_key(&candidate) {
+                registry.insert(candidate.clone(), 1);
+                registry.insert(cpp_method_name, offset);
+                return candidate;
+            }
         }
     }
 }
-- 
2.43.0


From 28ab22e03bf467b20f28c1e473cf2a6778519b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:43 +0000
Subject: [PATCH 13/23] fix: don't lose functions whose disambiguated bridge
 name would contain a double underscore

---
 .../src/conversion/analysis/fun/bridge_name_tracker.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
index a1c819a..4b47572 100644
--- a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
+++ b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
@@ -91,11 +91,17 @@ impl BridgeNameTracker {
             return found_name.to_string();
         }
         let type_name = type_name.map(|s| s.to_string());
-        let prefix = ns
+        let mut prefix = ns
             .iter()
             .chain(type_name.iter().map(|s| s.as_str()))
             .chain(std::iter::once(found_name))
             .join("_");
+        // cxx does not accept names containing double underscores, which we'd
+        // make here if any of these names starts or ends with an underscore.
+        while prefix.contains("__") {
+            prefix = prefix.replace("__", "_");
+        }
+        let joiner = if prefix.ends_with('_') { "" } else { "_" };
         let mut count = self
             .next_cxx_bridge_name_for_prefix
             .get(&prefix)
@@ -105,7 +111,7 @@ impl BridgeNameTracker {
             let candidate = if count == 0 {
                 prefix.clone()
             } else {
-                format!("{prefix}_autocxx{count}")
+                format!("{prefix}{joiner}autocxx{count}")
             };
             count += 1;
             // Something else may already have this name.
-- 
2.43.0


From 567efc54aef6d7b1bb1c8e35041adfb5a4a3a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:43 +0000
Subject: [PATCH 14/23] fix: namespaced functions can take std::string by value

---
 engine/src/conversion/codegen_rs/function_wrapper_rs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_rs/function_wrapper_rs.rs b/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
index ac461ba..eed7894 100644
--- a/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
+++ b/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
@@ -41,7 +41,7 @@ impl TypeConversionPolicy {
                 conversion_requires_unsafe: false,
             },
             RustConversionType::FromStr => RustParamConversion::Param {
-                ty: parse_quote! { impl ToCppString },
+                ty: parse_quote! { impl output::ToCppString },
                 local_variables: Vec::new(),
                 conversion: quote! ( #var .into_cpp() ),
                 conversion_requires_unsafe: false,
-- 
2.43.0


From 33840e41f5aa8c36abfeafb1aa89b407d925b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 15/23] fix: calls to global functions aren't ambiguous with
 functions found by argument-dependent lookup

---
 engine/src/conversion/codegen_cpp/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index 02c494f..9f98a84 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -531,8 +531,14 @@ impl<'a> CppCodeGenerator<'a> {
                             id.to_string_for_cpp_generation().to_string(),
                         ))
                         .join("::");
+                    // Call exactly this function, and not something of the same
+                    // name found using argument-dependent lookup.
+                    let prefix = match conversion_direction {
+                        ConversionDirection::RustCallsCpp if ns.is_empty() => "::",
+                        _ => "",
+                    };
                     (
-                        format!("{underlying_function_call}({arg_list})"),
+                        format!("{prefix}{underlying_function_call}({arg_list})"),
                         "".to_string(),
                         false,
                     )
-- 
2.43.0


From 2f04ca22794f620cb6f9ff4643488fac49e2c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 16/23] fix: an item which relies on an unknown type takes the
 items which depend on it along

---
 engine/src/conversion/analysis/remove_ignored.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/src/conversion/analysis/remove_ignored.rs b/engine/src/conversion/analysis/remove_ignored.rs
index 4ed4b9f..9064bbb 100644
--- a/engine/src/conversion/analysis/remove_ignored.rs
+++ b/engine/src/conversion/analysis/remove_ignored.rs
@@ -55,6 +55,9 @@ pub(crate) fn filter_apis_by_ignored_dependents(mut apis: ApiVec<FnPhase>) -> Ap
                     let first = missing_deps.next();
                     std::mem::drop(missing_deps);
                     if let Some(missing_dep) = first.cloned() {
+                        // Anything which depends on this item must go too.
+                        iterate_again = true;
+                        ignored_items.insert(api.name().clone());
                         create_ignore_item(
                             api,
                             ConvertErrorFromCpp::UnknownDependentType(missing_dep),
-- 
2.43.0


From 113d5d7ee21345af14d35e406828d640cc6d9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:03 +0000
Subject: [PATCH 17/23] fix: the marker for an item which relies on something
 missing goes by the item's Rust name

---
 engine/src/conversion/analysis/remove_ignored.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/analysis/remove_ignored.rs b/engine/src/conversion/analysis/remove_ignored.rs
index 9064bbb..e605755 100644
--- a/engine/src/conversion/analysis/remove_ignored.rs
+++ b/engine/src/conversion/analysis/remove_ignored.rs
@@ -12,6 +12,7 @@ use super::deps::HasDependencies;
 use super::fun::{FnAnalysis, FnKind, FnPhase};
 use crate::conversion::apivec::ApiVec;
 use crate::conversion::{convert_error::ErrorContext, ConvertErrorFromCpp};
+use crate::types::make_ident;
 use crate::{conversion::api::Api, known_types};
 
 /// Remove any APIs which depend on other items which have been ignored.
@@ -73,7 +74,13 @@ pub(crate) fn filter_apis_by_ignored_dependents(mut apis: ApiVec<FnPhase>) -> Ap
 }
 
 fn create_ignore_item(api: Api<FnPhase>, err: ConvertErrorFromCpp) -> Api<FnPhase> {
-    let id = api.name().get_final_ident();
+    let id = match &api {
+        // The API name of a function may be a mangled name within the
+        // cxx::bridge mod. The marker should go by the name which the
+        // user would have called.
+        Api::Function { analysis, .. } => make_ident(&analysis.rust_name),
+        _ => api.name().get_final_ident(),
+    };
     log::info!("Marking as ignored: {} because {}", id.to_string(), err);
     Api::IgnoredItem {
         name: api.name_info().clone(),
-- 
2.43.0


From 2468b634b4934229fd9ef6b57be1048ecf9663bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:50 +0000
Subject: [PATCH 18/23] fix: a method named like its class plus digits is not a
 constructor

A method such as A::A1 was taken for a constructor of A numbered by bindgen, so
calling it constructed a new A in place of the old one, the generated C++ failed
to compile, or (for a static method) the generator panicked.
---
 engine/src/conversion/analysis/fun/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 29c6a58..0cf9538 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -937,8 +937,11 @@ impl<'a> FnAnalyzer<'a> {
                     rust_name,
                 )
             } else {
+                // A method whose C++ name is that of the class plus some digits
+                // (e.g. A::A1) is not a constructor.
                 let method_kind = if let Some(constructor_suffix) =
                     constructor_with_suffix(&rust_name, nested_type_ident)
+                        .filter(|suffix| suffix.is_empty() || cpp_original_name.is_none())
                 {
                     // It's a constructor. bindgen generates
                     // fn Type(this: *mut Type, ...args)
-- 
2.43.0


From 1472ae25dec4aabd3730ef6eb0f616496bda51d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 19/23] fix: a method whose C++ name ends in an underscore
 keeps its name

A::f_ was called A_f_ in Rust, because the name which bindgen gave it was taken
to be bindgen's replacement for a Rust keyword.
---
 engine/src/conversion/analysis/fun/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 0cf9538..0d5b050 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -789,7 +789,8 @@ impl<'a> FnAnalyzer<'a> {
         let ideal_rust_name = match cpp_original_name {
             None => initial_rust_name, // case 1
             Some(cpp_original_name) => {
-                if initial_rust_name.ends_with('_') {
+                if initial_rust_name == format!("{}_", cpp_original_name.to_string_for_rust_name())
+                {
                     initial_rust_name // case 2
                 } else if validate_ident_ok_for_rust(cpp_original_name).is_err() {
                     format!("{}_", cpp_original_name.to_string_for_rust_name()) // case 5
-- 
2.43.0


From c2ab5bdb5bb6c599239b6288b6487cabb560b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 20/23] fix: don't lose functions whose names differ only in a
 trailing underscore

The C++ wrappers of f and f_ were given the same name, and then both functions
were silently dropped as duplicates.
---
 engine/src/conversion/analysis/fun/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 0d5b050..896eb6d 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -1319,14 +1319,15 @@ impl<'a> FnAnalyzer<'a> {
         let cpp_wrapper = if wrapper_function_needed {
             // Generate a new layer of C++ code to wrap/unwrap parameters
             // and return values into/out of std::unique_ptrs.
-            let joiner = if cxxbridge_name.to_string().ends_with('_') {
-                ""
+            // (cxx doesn't accept double underscores, and f and f_ mustn't end up with the same name.)
+            let suffix = if cxxbridge_name.to_string().ends_with('_') {
+                "autocxx_underscore_wrapper"
             } else {
-                "_"
+                "_autocxx_wrapper"
             };
             cxxbridge_name = make_ident(
                 self.config
-                    .uniquify_name_per_mod(&format!("{cxxbridge_name}{joiner}autocxx_wrapper")),
+                    .uniquify_name_per_mod(&format!("{cxxbridge_name}{suffix}")),
             );
             let (payload, cpp_function_kind) = match fun.synthetic_cpp.as_ref().cloned() {
                 Some((payload, cpp_function_kind)) => (payload, cpp_function_kind),
-- 
2.43.0


From 97b6f4349c0ccce8479677b9d2c500d4db811e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 21/23] fix: subclass! of a class whose virtual methods take a
 unique_ptr panicked

Such a parameter is moved on its way; the inverse of a move was not defined, and the
superclass's own function was called with an lvalue.
---
 engine/src/conversion/analysis/fun/function_wrapper.rs | 1 +
 engine/src/conversion/codegen_cpp/mod.rs               | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/function_wrapper.rs b/engine/src/conversion/analysis/fun/function_wrapper.rs
index ea5521f..9c760e8 100644
--- a/engine/src/conversion/analysis/fun/function_wrapper.rs
+++ b/engine/src/conversion/analysis/fun/function_wrapper.rs
@@ -37,6 +37,7 @@ impl CppConversionType {
     fn inverse(&self) -> Self {
         match self {
             CppConversionType::None => CppConversionType::None,
+            CppConversionType::Move => CppConversionType::Move,
             CppConversionType::FromUniquePtrToValue | CppConversionType::FromPtrToValue => {
                 CppConversionType::FromValueToUniquePtr
             }
diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index 9f98a84..1184102 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -25,7 +25,7 @@ use type_to_cpp::CppNameMap;
 use super::{
     analysis::{
         fun::{
-            function_wrapper::{CppFunction, CppFunctionBody},
+            function_wrapper::{CppConversionType, CppFunction, CppFunctionBody},
             FnPhase, PodAndDepAnalysis,
         },
         pod::PodAnalysis,
@@ -451,7 +451,10 @@ impl<'a> CppCodeGenerator<'a> {
                 ConversionDirection::RustCallsCpp => {
                     conv.cpp_conversion(&get_arg_name(counter), &self.original_name_map, false)
                 }
-                ConversionDirection::CppCallsCpp => Ok(Some(get_arg_name(counter))),
+                ConversionDirection::CppCallsCpp => Ok(Some(match conv.cpp_conversion {
+                    CppConversionType::Move => format!("std::move({})", get_arg_name(counter)),
+                    _ => get_arg_name(counter),
+                })),
                 ConversionDirection::CppCallsRust => conv.inverse().cpp_conversion(
                     &get_arg_name(counter),
                     &self.original_name_map,
-- 
2.43.0


From dc7586c49b7ef6b1e9b51b13641283c329c0608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 22/23] fix: subclass! of a class with a private constructor
 generated C++ which does not compile

---
 engine/src/conversion/analysis/fun/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 896eb6d..0bcdd5a 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -556,6 +556,10 @@ impl<'a> FnAnalyzer<'a> {
                 if !types_with_destructors.contains(sup) {
                     continue;
                 }
+                // Nor can a subclass call a private constructor of its superclass.
+                if matches!(fun.cpp_vis, CppVisibility::Private) {
+                    continue;
+                }
 
                 for sub in self.subclasses_by_superclass(sup) {
                     // Create a subclass constructor. This is a synthesized function
-- 
2.43.0


From 8cdbc40a57b3fe2192356764d5bd9aaf9c6ad086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 23/23] fix: default construction of a Rust subclass assumed
 its constructor is called new

---
 engine/src/conversion/codegen_rs/mod.rs | 45 ++++++++++++++-----------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/engine/src/conversion/codegen_rs/mod.rs b/engine/src/conversion/codegen_rs/mod.rs
index dc169ee..28866de 100644
--- a/engine/src/conversion/codegen_rs/mod.rs
+++ b/engine/src/conversion/codegen_rs/mod.rs
@@ -377,7 +377,7 @@ impl<'a> RsCodeGenerator<'a> {
         &self,
         api: Api<FnPhase>,
         associated_methods: &HashMap<QualifiedName, Vec<SuperclassMethod>>,
-        subclasses_with_a_single_trivial_constructor: &HashSet<QualifiedName>,
+        subclasses_with_a_single_trivial_constructor: &HashMap<QualifiedName, String>,
         non_pod_types: &HashSet<QualifiedName>,
     ) -> RsCodegenResult {
         let name = api.name().clone();
@@ -515,12 +515,13 @@ impl<'a> RsCodeGenerator<'a> {
                 name, superclass, ..
             } => {
                 let methods = associated_methods.get(&superclass);
-                let generate_peer_constructor = subclasses_with_a_single_trivial_constructor.contains(&name.0.name) &&
+                let peer_constructor = subclasses_with_a_single_trivial_constructor
+                    .get(&name.0.name)
                     // TODO: Create an UnsafeCppPeerConstructor trait for calling an unsafe
                     // constructor instead? Need to create unsafe versions of everything that uses
                     // it too.
-                    matches!(self.unsafe_policy, UnsafePolicy::AllFunctionsSafe);
-                self.generate_subclass(name, &superclass, methods, generate_peer_constructor)
+                    .filter(|_| matches!(self.unsafe_policy, UnsafePolicy::AllFunctionsSafe));
+                self.generate_subclass(name, &superclass, methods, peer_constructor)
             }
             Api::ExternCppType {
                 details: ExternCppType { rust_path, .. },
@@ -540,7 +541,7 @@ impl<'a> RsCodeGenerator<'a> {
         sub: SubclassName,
         superclass: &QualifiedName,
         methods: Option<&Vec<SuperclassMethod>>,
-        generate_peer_constructor: bool,
+        peer_constructor: Option<&String>,
     ) -> RsCodegenResult {
         let super_name = superclass.get_final_item();
         let super_path = superclass.to_type_path();
@@ -609,12 +610,13 @@ impl<'a> RsCodeGenerator<'a> {
                 });
             }
         }
-        if generate_peer_constructor {
+        if let Some(peer_constructor) = peer_constructor {
+            let peer_constructor = make_ident(peer_constructor);
             output_mod_items.push(parse_quote! {
                 impl autocxx::subclass::CppPeerConstructor<#cpp_id> for super::#id {
                     fn make_peer(&mut self, peer_holder: autocxx::subclass::CppSubclassRustPeerHolder<Self>) -> cxx::UniquePtr<#cpp_path> {
                         use autocxx::moveit::Emplace;
-                        cxx::UniquePtr::emplace(#cpp_id :: new(peer_holder))
+                        cxx::UniquePtr::emplace(#cpp_id :: #peer_constructor(peer_holder))
                     }
                 }
             })
@@ -1033,26 +1035,31 @@ impl<'a> RsCodeGenerator<'a> {
     }
 }
 
-fn find_trivially_constructed_subclasses(apis: &ApiVec<FnPhase>) -> HashSet<QualifiedName> {
+/// Subclasses which can only be constructed without arguments, each with the
+/// Rust name of that constructor.
+fn find_trivially_constructed_subclasses(apis: &ApiVec<FnPhase>) -> HashMap<QualifiedName, String> {
     let (simple_constructors, complex_constructors): (Vec<_>, Vec<_>) = apis
         .iter()
         .filter_map(|api| match api {
-            Api::Function { fun, .. } => match &fun.provenance {
-                Provenance::SynthesizedSubclassConstructor(details) => {
-                    Some((&details.subclass.0.name, details.is_trivial))
-                }
+            Api::Function { fun, analysis, .. } => match &fun.provenance {
+                Provenance::SynthesizedSubclassConstructor(details) => Some((
+                    &details.subclass.0.name,
+                    &analysis.rust_name,
+                    details.is_trivial,
+                )),
                 _ => None,
             },
             _ => None,
         })
-        .partition(|(_, trivial)| *trivial);
-    let simple_constructors: HashSet<_> =
-        simple_constructors.into_iter().map(|(qn, _)| qn).collect();
-    let complex_constructors: HashSet<_> =
-        complex_constructors.into_iter().map(|(qn, _)| qn).collect();
-    (&simple_constructors - &complex_constructors)
+        .partition(|(_, _, trivial)| *trivial);
+    let complex_constructors: HashSet<_> = complex_constructors
+        .into_iter()
+        .map(|(qn, _, _)| qn)
+        .collect();
+    simple_constructors
         .into_iter()
-        .cloned()
+        .filter(|(qn, _, _)| !complex_constructors.contains(qn))
+        .map(|(qn, rust_name, _)| (qn.clone(), rust_name.clone()))
         .collect()
 }
 
-- 
2.43.0

