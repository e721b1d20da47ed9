From c928a72f6f1f31a7c04eff258e9edecb612f636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 1/7] fix: strip raw identifier prefix from generated GLSL
 names

A field or struct named with a raw identifier, like r#type, produced a
GLSL declaration containing 'r#', which is not a valid GLSL identifier.
---
 crevice-derive/src/glsl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index e6b7a3c..6bda495 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Literal, TokenStream};
 use quote::quote;
-use syn::{parse_quote, Data, DeriveInput, Fields, Path};
+use syn::{ext::IdentExt, parse_quote, Data, DeriveInput, Fields, Path};
 
 pub fn emit(input: DeriveInput) -> TokenStream {
     let fields = match &input.data {
@@ -16,13 +16,13 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     let struct_trait_path: Path = parse_quote!(::crevice::glsl::GlslStruct);
 
     let name = input.ident;
-    let name_str = Literal::string(&name.to_string());
+    let name_str = Literal::string(&name.unraw().to_string());
 
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let glsl_fields = fields.named.iter().map(|field| {
         let field_ty = &field.ty;
-        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().to_string());
+        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().unraw().to_string());
 
         quote! {
             ::crevice::glsl::GlslField {
-- 
2.43.0


From 6597d504a2164e5adf4fc75287e820874f442ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 2/7] fix: implement Glsl for bool

The documentation says every GLSL primitive implements Glsl, and bvec2
through bvec4 do, but bool did not: deriving GlslStruct for a struct with
a bool member failed to compile.
---
 src/glsl.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glsl.rs b/src/glsl.rs
index 2d595b3..b63182d 100644
--- a/src/glsl.rs
+++ b/src/glsl.rs
@@ -97,3 +97,11 @@ unsafe impl Glsl for i32 {
 unsafe impl Glsl for u32 {
     const NAME: &'static str = "uint";
 }
+
+unsafe impl Glsl for bool {
+    const NAME: &'static str = "bool";
+}
+
+unsafe impl Glsl for crate::bool::Bool {
+    const NAME: &'static str = "bool";
+}
-- 
2.43.0


From 48b203a2537f4b116d8b2ddd32bea445750eb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 3/7] fix: derive layouts of structs with many fields in
 reasonable time

Each generated padding function called all the earlier ones, so that
evaluating them took time exponential in the number of fields: structs
with about twenty fields or more failed to compile or hung the compiler.
---
 crevice-derive/src/layout.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 343d2ba..ff0b10f 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -58,15 +58,15 @@ pub fn emit(
         ])
     };
 
-    // Generate names for each padding calculation function.
+    // Generate names for each padding constant.
     let pad_fns: Vec<_> = (0..fields.len())
         .map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index))
         .collect();
 
     // Computes the offset immediately AFTER the field with the given index.
     //
-    // This function depends on the generated padding calculation functions to
-    // do correct alignment. Be careful not to cause recursion!
+    // This function depends on the generated padding constants to do correct
+    // alignment. Be careful not to cause recursion!
     let offset_after_field = |target: usize| {
         let mut output = vec![quote!(0usize)];
 
@@ -84,7 +84,7 @@ pub fn emit(
             if index < target {
                 let pad_fn = &pad_fns[index];
                 output.push(quote! {
-                    + #pad_fn()
+                    + #pad_fn
                 });
             }
         }
@@ -106,8 +106,12 @@ pub fn emit(
             quote! {
                 /// Tells how many bytes of padding have to be inserted after
                 /// the field with index #index.
-                #[allow(non_snake_case)]
-                const fn #pad_fn() -> usize {
+                ///
+                /// This is a constant, and not a function, so that the compiler
+                /// evaluates it once and not once per use: each of these depends
+                /// on all of the ones before it.
+                #[allow(non_upper_case_globals)]
+                const #pad_fn: usize = {
                     // First up, calculate our offset into the struct so far.
                     // We'll use this value to figure out how far out of
                     // alignment we are.
@@ -120,7 +124,7 @@ pub fn emit(
 
                     // Using everything we've got, compute our padding amount.
                     ::crevice::internal::align_offset(starting_offset, alignment)
-                }
+                };
             }
         })
         .collect();
@@ -136,7 +140,7 @@ pub fn emit(
 
             quote! {
                 #field_name: #field_ty,
-                #pad_field_name: [u8; #pad_fn()],
+                #pad_field_name: [u8; #pad_fn],
             }
         })
         .collect();
-- 
2.43.0


From 36a29e46eebd701d67482e610d80088bde721dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 4/7] fix: implement Debug for DynamicUniformStd140

The derived layout structs derive Debug, so that a struct with a
DynamicUniform field could not be derived although the wrapper implements
AsStd140.
---
 src/std140/dynamic_uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std140/dynamic_uniform.rs b/src/std140/dynamic_uniform.rs
index 0fe3fda..310c2f1 100644
--- a/src/std140/dynamic_uniform.rs
+++ b/src/std140/dynamic_uniform.rs
@@ -22,7 +22,7 @@ impl<T: AsStd140> AsStd140 for DynamicUniform<T> {
 }
 
 /// std140 variant of [`DynamicUniform`].
-#[derive(Clone, Copy)]
+#[derive(Debug, Clone, Copy)]
 #[repr(transparent)]
 pub struct DynamicUniformStd140<T>(T);
 
-- 
2.43.0


From e48e3952d59fdb5843bd321a13a2a0049188b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 5/7] fix: accept fields named like generated padding

A struct with a field called _pad0, _pad1 and so on failed to derive,
because the generated layout type uses these names for its padding.
---
 crevice-derive/src/layout.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index ff0b10f..e644ab9 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -129,13 +129,27 @@ pub fn emit(
         })
         .collect();
 
+    // The padding fields must not collide with the fields of the input struct,
+    // which may well be named like padding themselves.
+    let mut pad_prefix = String::from("_pad");
+    while fields.iter().any(|field| {
+        field
+            .ident
+            .as_ref()
+            .unwrap()
+            .to_string()
+            .starts_with(&pad_prefix)
+    }) {
+        pad_prefix.insert(0, '_');
+    }
+
     let generated_struct_fields: TokenStream = fields
         .iter()
         .enumerate()
         .map(|(index, field)| {
             let field_name = field.ident.as_ref().unwrap();
             let field_ty = layout_version_of_ty(&field.ty);
-            let pad_field_name = format_ident!("_pad{}", index);
+            let pad_field_name = format_ident!("{}{}", pad_prefix, index);
             let pad_fn = &pad_fns[index];
 
             quote! {
-- 
2.43.0


From 4931b23bf630f3776af043911d0e47f68fc42b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 6/7] fix: stop writing at the end of an iterator

write_iter polled an empty iterator a second time. If it had a value by
then, as a queue filled by another thread can, that value was written but
the offset returned was not the one it was written to.
---
 src/std140/writer.rs | 2 +-
 src/std430/writer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std140/writer.rs b/src/std140/writer.rs
index c9333b5..61b3ff8 100644
--- a/src/std140/writer.rs
+++ b/src/std140/writer.rs
@@ -109,7 +109,7 @@ impl<W: Write> Writer<W> {
     {
         let mut offset = self.offset;
 
-        let mut iter = iter.into_iter();
+        let mut iter = iter.into_iter().fuse();
 
         if let Some(item) = iter.next() {
             offset = item.write_std140(self)?;
diff --git a/src/std430/writer.rs b/src/std430/writer.rs
index 976bf25..5af4da5 100644
--- a/src/std430/writer.rs
+++ b/src/std430/writer.rs
@@ -109,7 +109,7 @@ impl<W: Write> Writer<W> {
     {
         let mut offset = self.offset;
 
-        let mut iter = iter.into_iter();
+        let mut iter = iter.into_iter().fuse();
 
         if let Some(item) = iter.next() {
             offset = item.write_std430(self)?;
-- 
2.43.0


From cfd650c2899332690bb6288c8186e795df84d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 7/7] fix: boolean layout values that mean the same compare
 equal

---
 src/bool.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bool.rs b/src/bool.rs
index f777fa6..f1ab187 100644
--- a/src/bool.rs
+++ b/src/bool.rs
@@ -5,7 +5,7 @@ use bytemuck::{Pod, Zeroable};
 /// GLSL's `bool` type.
 ///
 /// Boolean values in GLSL are 32 bits, in contrast with Rust's 8 bit bools.
-#[derive(Clone, Copy, Eq, PartialEq)]
+#[derive(Clone, Copy)]
 #[repr(transparent)]
 pub struct Bool(u32);
 
@@ -24,6 +24,15 @@ impl From<Bool> for bool {
     }
 }
 
+// Any non-zero word means `true`, and a device may store any of them.
+impl PartialEq for Bool {
+    fn eq(&self, other: &Self) -> bool {
+        bool::from(*self) == bool::from(*other)
+    }
+}
+
+impl Eq for Bool {}
+
 impl Debug for Bool {
     fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
         write!(f, "Bool({:?})", bool::from(*self))
-- 
2.43.0

