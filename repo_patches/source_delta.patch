From 757a0ab58e3bf6ed5b0dc8d42eaa49b043a78ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:14 +0000
Subject: [PATCH 01/21] fix: count reflected fields densely when fields of
 tuple structs and enum variants are skipped

to_value, the type info, fields_mut and fields_len leave skipped fields out, but
field_at, field_at_mut, name_at, patch and from_reflect kept counting them.
---
 .../src/derive_reflect/enum_.rs               | 19 +++++++------
 .../src/derive_reflect/tuple_struct.rs        | 27 ++++++++++++-------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index d0739c3..1afe6dd 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -153,7 +153,7 @@ fn expand_reflect(
                     }
                 }
                 FieldsData::Unnamed(fields) => {
-                    let set_fields = fields.iter().enumerate().filter(filter_out_skipped).map(
+                    let set_fields = fields.iter().filter(filter_out_skipped).enumerate().map(
                         |(index, field)| {
                             let ident = &field.fake_ident;
                             quote! {
@@ -406,12 +406,15 @@ fn expand_from_reflect(
                 }
             }
             FieldsData::Unnamed(fields) => {
-                let set_fields = fields.iter().enumerate().map(|(idx, field)| {
+                // skipped fields don't count towards the index reflection sees
+                let mut reflect_indices = 0_usize..;
+                let set_fields = fields.iter().map(move |field| {
                     if field.skip() {
                         quote! {
                             ::core::default::Default::default(),
                         }
                     } else {
+                        let idx = reflect_indices.next();
                         let ty = &field.ty;
                         if let Some(from_reflect_with) = field.from_reflect_with() {
                             quote! {
@@ -630,7 +633,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -649,7 +652,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -694,7 +697,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -713,7 +716,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -870,7 +873,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -889,7 +892,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 07d0893..39674f8 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -91,6 +91,7 @@ fn expand_reflect(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
+            .enumerate()
             .map(|(idx, _)| {
                 quote! {
                     if let Some(new_value) = tuple_struct.field_at(#idx) {
@@ -195,6 +196,8 @@ fn expand_from_reflect(
     generics: &Generics<'_>,
 ) -> TokenStream {
     let fn_from_reflect = {
+        // skipped fields don't count towards the index reflection sees
+        let mut reflect_indices = 0_usize..;
         let code_for_fields = fields.iter().enumerate().map(|(idx, field)| {
             let field_index = Index {
                 index: idx as u32,
@@ -203,27 +206,29 @@ fn expand_from_reflect(
             let ty = &field.ty;
             let span = ty.span();
             if field_attrs.skip(&idx) {
-                quote_spanned! {span=>
+                return quote_spanned! {span=>
                     #field_index: ::core::default::Default::default(),
-                }
-            } else if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
+                };
+            }
+            let reflect_index = reflect_indices.next();
+            if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_index)?;
                         #from_reflect_with(value)?
                     }
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_index)?;
                         <#ty as FromReflect>::from_reflect(value)?
                     },
                 }
             } else {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_index)?;
                         if let Some(value) = value.downcast_ref::<#ty>() {
                             value.to_owned()
                         } else {
@@ -269,13 +274,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflect_index, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect()),
+                    #reflect_index => Some(self.#field_index.as_reflect()),
                 }
             });
 
@@ -294,13 +300,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflect_index, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect_mut()),
+                    #reflect_index => Some(self.#field_index.as_reflect_mut()),
                 }
             });
 
-- 
2.43.0


From 0752c68ed334c799d9b30c63101b5ba67d5134bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:14 +0000
Subject: [PATCH 02/21] fix: separate a from_reflect_with field of a tuple
 struct from the next field

---
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 39674f8..229d155 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -216,7 +216,7 @@ fn expand_from_reflect(
                     #field_index: {
                         let value = tuple_struct.field_at(#reflect_index)?;
                         #from_reflect_with(value)?
-                    }
+                    },
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
-- 
2.43.0


From 559634188a3724d54a07eb91ff4eb128c9069b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 03/21] fix: describe directly recursive enums and tuple
 structs without recursing forever

The variants and fields were built before the node was reserved in the graph, so
a type reaching itself through Box alone never terminated.
---
 crates/mirror-mirror-macros/src/derive_reflect/enum_.rs        | 2 +-
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 1afe6dd..65393fb 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -112,8 +112,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let variants = &[#(#code_for_variants),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let variants = &[#(#code_for_variants),*];
                     EnumNode::new::<Self>(variants, #meta, #docs)
                 })
             }
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 229d155..115b913 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -70,8 +70,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let fields = &[#(#code_for_fields),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let fields = &[#(#code_for_fields),*];
                     TupleStructNode::new::<Self>(fields, #meta, #docs)
                 })
             }
-- 
2.43.0


From 5a00620e819b81f61d6754bcab9b5a645ab1da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:18 +0000
Subject: [PATCH 04/21] fix: let enum variant fields be called name, index or
 value

---
 .../src/derive_reflect/enum_.rs               | 67 ++++++++++---------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 65393fb..32269ae 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -1,5 +1,3 @@
-use alloc::borrow::Cow;
-
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::DataEnum;
@@ -135,11 +133,11 @@ fn expand_reflect(
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = field.ident;
-                        let ident_string = stringify(ident);
+                        let binding = &field.binding;
+                        let ident_string = stringify(field.ident);
                         quote! {
                             if let Some(new_value) = enum_.field(#ident_string) {
-                                #ident.patch(new_value);
+                                #binding.patch(new_value);
                             }
                         }
                     });
@@ -228,10 +226,10 @@ fn expand_reflect(
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let ident_string = stringify(ident);
+                        let binding = &field.binding;
+                        let ident_string = stringify(field.ident);
                         quote! {
-                            value.set_struct_field(#ident_string, #ident.to_value());
+                            value.set_struct_field(#ident_string, #binding.to_value());
                         }
                     });
 
@@ -538,11 +536,11 @@ fn expand_enum(
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let binding = &field.binding;
+                            let ident_string = stringify(field.ident);
                             quote! {
                                 if name == #ident_string {
-                                    return Some(#ident);
+                                    return Some(#binding);
                                 }
                             }
                         });
@@ -586,11 +584,11 @@ fn expand_enum(
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let binding = &field.binding;
+                            let ident_string = stringify(field.ident);
                             quote! {
                                 if name == #ident_string {
-                                    return Some(#ident);
+                                    return Some(#binding);
                                 }
                             }
                         });
@@ -635,7 +633,7 @@ fn expand_enum(
                         let return_if_index_matches =
                             fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let field_name = &field.binding;
                                     quote! {
                                         if #idx == index {
                                             return Some(#field_name.as_reflect());
@@ -699,7 +697,7 @@ fn expand_enum(
                         let return_if_index_matches =
                             fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let field_name = &field.binding;
                                     quote! {
                                         if #idx == index {
                                             return Some(#field_name.as_reflect_mut());
@@ -770,10 +768,10 @@ fn expand_enum(
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let code_for_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let field = stringify(ident);
+                        let binding = &field.binding;
+                        let field = stringify(field.ident);
                         quote! {
-                            (#field, #ident.as_reflect_mut()),
+                            (#field, #binding.as_reflect_mut()),
                         }
                     });
 
@@ -971,7 +969,16 @@ impl<'a> VariantData<'a> {
                                 let ty = &field.ty;
                                 let attrs = InnerAttrs::parse(&field.attrs)?;
 
-                                Ok(NamedField { ident, ty, attrs })
+                                // bound under another name so a field can't shadow the variables
+                                // of the generated functions
+                                let binding = quote::format_ident!("field_{}", ident);
+
+                                Ok(NamedField {
+                                    ident,
+                                    binding,
+                                    ty,
+                                    attrs,
+                                })
                             })
                             .collect::<syn::Result<Vec<_>>>()?;
 
@@ -1013,17 +1020,16 @@ impl<'a> VariantData<'a> {
 }
 
 impl<'a> VariantData<'a> {
-    fn field_names<'this>(&'this self) -> Box<dyn Iterator<Item = Cow<'a, Ident>> + 'this> {
+    fn field_names<'this>(&'this self) -> Box<dyn Iterator<Item = TokenStream> + 'this> {
         match &self.fields {
-            FieldsData::Named(fields) => {
-                Box::new(fields.iter().map(|field| Cow::Borrowed(field.ident)))
-            }
-            FieldsData::Unnamed(fields) => Box::new(
-                fields
-                    .iter()
-                    .enumerate()
-                    .map(|(index, _)| Cow::Owned(quote::format_ident!("field_{index}"))),
-            ),
+            FieldsData::Named(fields) => Box::new(fields.iter().map(|field| {
+                let NamedField { ident, binding, .. } = field;
+                quote! { #ident: #binding }
+            })),
+            FieldsData::Unnamed(fields) => Box::new(fields.iter().map(|field| {
+                let fake_ident = &field.fake_ident;
+                quote! { #fake_ident }
+            })),
             FieldsData::Unit => Box::new(core::iter::empty()),
         }
     }
@@ -1037,6 +1043,7 @@ enum FieldsData<'a> {
 
 struct NamedField<'a> {
     ident: &'a Ident,
+    binding: Ident,
     ty: &'a Type,
     attrs: InnerAttrs,
 }
-- 
2.43.0


From ae284933b17e71e49f7e688cc6de43b9e0a1650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:36 +0000
Subject: [PATCH 05/21] fix: don't wrap keys that are out of range for an index

---
 crates/mirror-mirror/src/key_path.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 250cf6f..07f540d 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -570,14 +570,14 @@ pub(crate) fn value_to_usize(value: &Value) -> Option<usize> {
         Value::usize(n) => Some(*n),
         Value::u8(n) => Some(*n as usize),
         Value::u16(n) => Some(*n as usize),
-        Value::u32(n) => Some(*n as usize),
-        Value::u64(n) => Some(*n as usize),
-        Value::u128(n) => Some(*n as usize),
-        Value::i8(n) => Some(*n as usize),
-        Value::i16(n) => Some(*n as usize),
-        Value::i32(n) => Some(*n as usize),
-        Value::i64(n) => Some(*n as usize),
-        Value::i128(n) => Some(*n as usize),
+        Value::u32(n) => usize::try_from(*n).ok(),
+        Value::u64(n) => usize::try_from(*n).ok(),
+        Value::u128(n) => usize::try_from(*n).ok(),
+        Value::i8(n) => usize::try_from(*n).ok(),
+        Value::i16(n) => usize::try_from(*n).ok(),
+        Value::i32(n) => usize::try_from(*n).ok(),
+        Value::i64(n) => usize::try_from(*n).ok(),
+        Value::i128(n) => usize::try_from(*n).ok(),
         Value::bool(_)
         | Value::char(_)
         | Value::f32(_)
-- 
2.43.0


From a2e7c6ab2109fb2639f27aafa4c29e4e533ccf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:55 +0000
Subject: [PATCH 06/21] fix: report the remaining length of partially consumed
 field iterators

---
 crates/mirror-mirror/src/array.rs        | 9 +++++----
 crates/mirror-mirror/src/struct_.rs      | 9 +++++----
 crates/mirror-mirror/src/tuple.rs        | 9 +++++----
 crates/mirror-mirror/src/tuple_struct.rs | 9 +++++----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/mirror-mirror/src/array.rs b/crates/mirror-mirror/src/array.rs
index b158686..4397269 100644
--- a/crates/mirror-mirror/src/array.rs
+++ b/crates/mirror-mirror/src/array.rs
@@ -45,12 +45,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.array.len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.array.len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index d45c974..f3ba7c5 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -219,12 +219,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some((name, value))
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.struct_.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.struct_.fields_len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index dfc2f24..f485fc4 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -339,12 +339,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.tuple.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.tuple.fields_len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/tuple_struct.rs b/crates/mirror-mirror/src/tuple_struct.rs
index 35956fd..2e8f9f8 100644
--- a/crates/mirror-mirror/src/tuple_struct.rs
+++ b/crates/mirror-mirror/src/tuple_struct.rs
@@ -190,12 +190,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.tuple_struct.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.tuple_struct.fields_len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
-- 
2.43.0


From 9845f3e788f0df5f4bee02fd0505077b86e391e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 07/21] fix: convert arrays from arrays and patch them with
 their values

---
 .../mirror-mirror/src/foreign_impls/array.rs  | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index 5dcec66..84f0ff2 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -44,11 +44,15 @@ where
     }
 
     fn patch(&mut self, value: &dyn Reflect) {
-        if let Some(array) = value.reflect_ref().as_array() {
-            for (idx, new_value) in array.iter().enumerate() {
-                if let Some(value) = self.get_mut(idx) {
-                    value.patch(new_value);
-                }
+        let array = match value.reflect_ref() {
+            ReflectRef::Array(array) => array.iter(),
+            // `Value`s represent arrays as lists
+            ReflectRef::List(list) => list.iter(),
+            _ => return,
+        };
+        for (idx, new_value) in array.enumerate() {
+            if let Some(value) = self.get_mut(idx) {
+                value.patch(new_value);
             }
         }
     }
@@ -108,7 +112,17 @@ where
     T: FromReflect + DescribeType,
 {
     fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
-        Vec::<T>::from_reflect(reflect)?.try_into().ok()
+        let array = match reflect.reflect_ref() {
+            ReflectRef::Array(array) => array.iter(),
+            // `Value`s represent arrays as lists
+            ReflectRef::List(list) => list.iter(),
+            _ => return None,
+        };
+        array
+            .map(T::from_reflect)
+            .collect::<Option<Vec<_>>>()?
+            .try_into()
+            .ok()
     }
 }
 
-- 
2.43.0


From d20a8495ba826c87a504445f2a94e7af490f1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:10 +0000
Subject: [PATCH 08/21] fix: reject numbers that aren't durations instead of
 panicking

---
 crates/mirror-mirror/src/foreign_impls/via_scalar.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
index 7364526..c49cd38 100644
--- a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
+++ b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
@@ -97,7 +97,14 @@ impl_reflect_via_scalar! { NonZeroI32,   i32,   |n: &NonZeroI32| n.get(),   Self
 impl_reflect_via_scalar! { NonZeroI64,   i64,   |n: &NonZeroI64| n.get(),   Self::new }
 impl_reflect_via_scalar! { NonZeroI128,  i128,  |n: &NonZeroI128| n.get(),  Self::new }
 
-impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), Self::from_secs_f32 }
+impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), duration_from_secs_f32 }
+
+/// `Duration::from_secs_f32` panics for numbers that aren't a valid number of seconds
+fn duration_from_secs_f32(secs: f32) -> Option<Duration> {
+    (0.0..u64::MAX as f32)
+        .contains(&secs)
+        .then(|| Duration::from_secs_f32(secs))
+}
 
 trait IntoOption<T> {
     fn into_option(self) -> Option<T>;
-- 
2.43.0


From 11a834f47bf513f4c760894b4d5c7d9caf68183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 09/21] fix: empty arrays have a default value whatever their
 element type

---
 crates/mirror-mirror/src/type_info/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 478c756..c7593c8 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1269,7 +1269,7 @@ impl<'a> ArrayType<'a> {
     }
 
     pub fn has_default_value(&self) -> bool {
-        self.element_type().has_default_value()
+        self.is_empty() || self.element_type().has_default_value()
     }
 }
 
-- 
2.43.0


From fee82eedf33ab7550f0137f2753c37a4a8c2e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:32 +0000
Subject: [PATCH 10/21] fix: expose the metadata and docs of variants found by
 path

---
 crates/mirror-mirror/src/type_info/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index c7593c8..c0d763a 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1399,9 +1399,9 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.meta(key),
             TypeAtPath::TupleStruct(inner) => inner.meta(key),
             TypeAtPath::Enum(inner) => inner.meta(key),
+            TypeAtPath::Variant(inner) => inner.meta(key),
             TypeAtPath::Opaque(inner) => inner.meta(key),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
@@ -1414,8 +1414,8 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.docs(),
             TypeAtPath::TupleStruct(inner) => inner.docs(),
             TypeAtPath::Enum(inner) => inner.docs(),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Variant(inner) => inner.docs(),
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
-- 
2.43.0


From 65828a49fc95f556d1933bdb6b87e9ad4f561e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 11/21] fix: replace a field of a struct value that's set again
 instead of listing it twice

---
 crates/mirror-mirror/src/struct_.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index f3ba7c5..4a1e57e 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -74,8 +74,9 @@ impl StructValue {
 
     pub fn set_field(&mut self, name: impl Into<String>, value: impl Into<Value>) {
         let name = name.into();
-        self.field_names.push(name.clone());
-        self.fields.insert(name, value.into());
+        if self.fields.insert(name.clone(), value.into()).is_none() {
+            self.field_names.push(name);
+        }
     }
 }
 
-- 
2.43.0


From d6cf5f22978b216b9905351728bc3eae67d663aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:45 +0000
Subject: [PATCH 12/21] fix: iterate mutably over the fields of struct values
 in declaration order

---
 crates/mirror-mirror/src/struct_.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index 4a1e57e..9756459 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -144,10 +144,12 @@ impl Struct for StructValue {
     }
 
     fn fields_mut(&mut self) -> PairIterMut<'_> {
+        let mut fields = self.fields.iter_mut().collect::<BTreeMap<_, _>>();
+        // same order as `fields`
         let iter = self
-            .fields
-            .iter_mut()
-            .map(|(key, value)| (&**key, value.as_reflect_mut()));
+            .field_names
+            .iter()
+            .filter_map(move |name| Some((&**name, fields.remove(name)?.as_reflect_mut())));
         Box::new(iter)
     }
 
-- 
2.43.0


From 40e06258ba8aa83a5e14af596b132223c13ffc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:52 +0000
Subject: [PATCH 13/21] fix: downcast struct and enum values to the types they
 hold

---
 crates/mirror-mirror/src/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/value.rs b/crates/mirror-mirror/src/value.rs
index 34808da..e9155b6 100644
--- a/crates/mirror-mirror/src/value.rs
+++ b/crates/mirror-mirror/src/value.rs
@@ -195,11 +195,11 @@ impl Reflect for Value {
     }
 
     fn as_any(&self) -> &dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => inner.as_any())
     }
 
     fn as_any_mut(&mut self) -> &mut dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => inner.as_any_mut())
     }
 
     fn as_reflect(&self) -> &dyn Reflect {
-- 
2.43.0


From f3b78f60b8bb51ff4a1b699a6233825f6d9bc75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:17 +0000
Subject: [PATCH 14/21] fix: keep leading underscores in simplified type names

---
 .../mirror-mirror/src/type_info/simple_type_name.rs   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 5ca6ef2..428ca68 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -78,13 +78,12 @@ pub struct SimpleTypeName {
 
 impl SimpleTypeName {
     pub fn new(type_name: &str) -> Option<Self> {
-        const UNNAMED_CONST_PATH: &str = "::_";
+        const UNNAMED_CONST_PATH: &str = "::_::";
 
-        let type_name = if type_name.contains(UNNAMED_CONST_PATH) {
-            Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, ""))
-        } else {
-            Cow::Borrowed(type_name)
-        };
+        let mut type_name = Cow::Borrowed(type_name);
+        while type_name.contains(UNNAMED_CONST_PATH) {
+            type_name = Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, "::"));
+        }
 
         let ty = syn::parse_str::<Type>(&type_name).ok()?;
         Some(Self { ty })
-- 
2.43.0


From fa781cb6bf94e59d0209ed806a7f9b1ddd9d1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:35 +0000
Subject: [PATCH 15/21] fix: get fields of enum values by owned name as well

---
 crates/mirror-mirror/src/get_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/get_field.rs b/crates/mirror-mirror/src/get_field.rs
index 2fb8276..a32fe9d 100644
--- a/crates/mirror-mirror/src/get_field.rs
+++ b/crates/mirror-mirror/src/get_field.rs
@@ -99,9 +99,9 @@ where
             match self.reflect_ref() {
                 ReflectRef::Map(inner) => inner.get_field(key.to_owned()),
                 ReflectRef::Struct(inner) => inner.get_field(key),
+                ReflectRef::Enum(inner) => inner.get_field(&**key),
                 ReflectRef::TupleStruct(_)
                 | ReflectRef::Tuple(_)
-                | ReflectRef::Enum(_)
                 | ReflectRef::List(_)
                 | ReflectRef::Array(_)
                 | ReflectRef::Opaque(_)
@@ -145,9 +145,9 @@ where
             match self.reflect_mut() {
                 ReflectMut::Map(inner) => inner.get_field_mut(key.to_owned()),
                 ReflectMut::Struct(inner) => inner.get_field_mut(key),
+                ReflectMut::Enum(inner) => inner.get_field_mut(&**key),
                 ReflectMut::TupleStruct(_)
                 | ReflectMut::Tuple(_)
-                | ReflectMut::Enum(_)
                 | ReflectMut::List(_)
                 | ReflectMut::Array(_)
                 | ReflectMut::Opaque(_)
-- 
2.43.0


From e2ec3561d22a53735f9f7c9b3835144bdc6fcfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:09 +0000
Subject: [PATCH 16/21] fix: patch the values of arrays with arrays

---
 crates/mirror-mirror/src/foreign_impls/vec.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/vec.rs b/crates/mirror-mirror/src/foreign_impls/vec.rs
index 2675b45..6e90d25 100644
--- a/crates/mirror-mirror/src/foreign_impls/vec.rs
+++ b/crates/mirror-mirror/src/foreign_impls/vec.rs
@@ -92,11 +92,15 @@ where
     trivial_reflect_methods!();
 
     fn patch(&mut self, value: &dyn Reflect) {
-        if let Some(list) = value.reflect_ref().as_list() {
-            for (idx, new_value) in list.iter().enumerate() {
-                if let Some(value) = self.get_mut(idx) {
-                    value.patch(new_value);
-                }
+        let list = match value.reflect_ref() {
+            ReflectRef::List(list) => list.iter(),
+            // `Value`s represent arrays as lists
+            ReflectRef::Array(array) => array.iter(),
+            _ => return,
+        };
+        for (idx, new_value) in list.enumerate() {
+            if let Some(value) = self.get_mut(idx) {
+                value.patch(new_value);
             }
         }
     }
-- 
2.43.0


From 07f5f1a3059160810f42be4c76f369fd614c2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 17/21] fix: visiting an array given as a generic value
 panicked

---
 crates/mirror-mirror/src/try_visit.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/mirror-mirror/src/try_visit.rs b/crates/mirror-mirror/src/try_visit.rs
index 6b1badf..178a083 100644
--- a/crates/mirror-mirror/src/try_visit.rs
+++ b/crates/mirror-mirror/src/try_visit.rs
@@ -118,11 +118,18 @@ where
             }
         }
         Type::Array(array_ty) => {
-            let array = value.as_array().unwrap();
             let element_ty = array_ty.element_type();
 
-            for element in array.iter() {
-                try_visit(visitor, element, element_ty)?;
+            // arrays become lists when converted to `Value`
+            if let Some(list) = value.as_list() {
+                for element in list.iter() {
+                    try_visit(visitor, element, element_ty)?;
+                }
+            } else {
+                let array = value.as_array().unwrap();
+                for element in array.iter() {
+                    try_visit(visitor, element, element_ty)?;
+                }
             }
         }
         Type::Map(map_ty) => {
-- 
2.43.0


From ed47c8821423e5cbe18835373a8510a9b74ac38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 18/21] fix: types whose names can't be simplified could not be
 pretty printed

---
 crates/mirror-mirror/src/type_info/pretty_print.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/pretty_print.rs b/crates/mirror-mirror/src/type_info/pretty_print.rs
index 7b794c6..f64bb44 100644
--- a/crates/mirror-mirror/src/type_info/pretty_print.rs
+++ b/crates/mirror-mirror/src/type_info/pretty_print.rs
@@ -52,10 +52,13 @@ impl<'a> PrettyPrintRoot for Type<'a> {
 #[cfg(feature = "std")]
 fn simple_type_name_fmt(type_name: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
     if let Some(name) = super::SimpleTypeName::new(type_name) {
-        write!(f, "{name}")
-    } else {
-        f.write_str(type_name)
+        // not all type names that can be parsed can be simplified
+        let mut simple = alloc::string::String::new();
+        if write!(simple, "{name}").is_ok() {
+            return f.write_str(&simple);
+        }
     }
+    f.write_str(type_name)
 }
 
 #[cfg(not(feature = "std"))]
-- 
2.43.0


From 911086e5569b90cb78fe84e94d563487286eb413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:21 +0000
Subject: [PATCH 19/21] fix: type names with lifetimes could not be simplified

---
 crates/mirror-mirror/src/type_info/simple_type_name.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 428ca68..4669f88 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -294,8 +294,15 @@ impl<'a, 'b> WriteAst<AngleBracketedGenericArguments> for TypeWriter<'a, 'b> {
             args,
             gt_token: _,
         } = args;
+        // the type name might have placeholders for lifetimes
+        let mut args = args
+            .iter()
+            .filter(|arg| !matches!(arg, GenericArgument::Lifetime(_)))
+            .peekable();
+        if args.peek().is_none() {
+            return Ok(());
+        }
         write!(self.f, "<")?;
-        let mut args = args.iter().peekable();
         while let Some(arg) = args.next() {
             self.write(arg)?;
             if args.peek().is_some() {
-- 
2.43.0


From 997c636422eaf40a37b1459b5cd2da5e8ee88427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:28 +0000
Subject: [PATCH 20/21] fix: describing a type no longer runs user code under
 the lock

The expressions in meta(...) are evaluated while the graph of a type is being built. That happened while holding the write lock of the map of all descriptors so an expression that asked for a descriptor (as the default path of most methods does) never returned.
---
 crates/mirror-mirror/src/type_info/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index c0d763a..66b171a 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -65,13 +65,15 @@ pub trait DescribeType: 'static {
                 return Cow::Borrowed(info);
             }
 
+            // building runs user code (the values of `#[reflect(meta(...))]`) that might need the
+            // descriptor of some other type so that must happen without holding the lock
+            let mut graph = TypeGraph::default();
+            let id = Self::build(&mut graph);
+
             let mut map = lock.write().unwrap();
-            let info = map.entry(type_id).or_insert_with(|| {
-                let mut graph = TypeGraph::default();
-                let id = Self::build(&mut graph);
-                let info = TypeDescriptor::new(id, graph);
-                Box::leak(Box::new(info))
-            });
+            let info = map
+                .entry(type_id)
+                .or_insert_with(|| Box::leak(Box::new(TypeDescriptor::new(id, graph))));
             Cow::Borrowed(*info)
         }
 
-- 
2.43.0


From 7b49afb111159fd4a0258e5718cc97c3062c9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:00 +0000
Subject: [PATCH 21/21] fix: the iterators over key paths didn't report their
 size

Both are `ExactSizeIterator`s, so adapters that rely on `size_hint`, such as
`key_path.iter().take(2).len()`, panicked.
---
 crates/mirror-mirror/src/key_path.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 07f540d..8af3719 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -313,6 +313,10 @@ impl Iterator for IntoIter {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for IntoIter {
@@ -347,6 +351,10 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
-- 
2.43.0

