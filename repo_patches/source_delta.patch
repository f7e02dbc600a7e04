From 3e261ed5164660cd01bd0901e4c2f4e441a275c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:05 +0000
Subject: [PATCH 01/12] fix: report an error instead of panicking on a macro in
 a #[pinned_drop] impl

---
 pin-project-internal/src/pinned_drop.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 0264dad..6527219 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -93,7 +93,7 @@ fn validate_impl(item: &ItemImpl) -> Result<()> {
             validate_sig(&method.sig)?;
             if i == 0 { Ok(()) } else { bail!(method, "duplicate definitions with name `drop`") }
         }
-        _ => unreachable!("unexpected ImplItem"),
+        item => bail!(item, "unexpected item in implementation of trait `PinnedDrop`"),
     })
 }
 
-- 
2.43.0


From 5e3a2b9178bd382d7ca692995dab017d89cd1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:08 +0000
Subject: [PATCH 02/12] fix: report an error instead of panicking when
 #[pin_project]'s own #[pin] is replaced

---
 pin-project-internal/src/pin_project/args.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pin-project-internal/src/pin_project/args.rs b/pin-project-internal/src/pin_project/args.rs
index 00593dc..b1ad058 100644
--- a/pin-project-internal/src/pin_project/args.rs
+++ b/pin-project-internal/src/pin_project/args.rs
@@ -54,8 +54,11 @@ pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
         };
         bail!(span, "duplicate #[pin] attribute");
     }
-    // This `unwrap` only fails if another macro removes `#[pin]` and inserts own `#[pin]`.
-    syn::parse2(prev.1.unwrap())
+    match prev {
+        (_, Some(args)) => syn::parse2(args),
+        // This only fails if another macro removes `#[pin]` and inserts own `#[pin]`.
+        (attr, None) => bail!(attr, "#[pin_project] attribute has been removed"),
+    }
 }
 
 pub(super) struct Args {
-- 
2.43.0


From 0b9ce5e48aa52e16436b6381641f1c7dfa2dac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:23 +0000
Subject: [PATCH 03/12] fix: do not clash with a lifetime bound by for<...> in
 a field type

---
 .../src/pin_project/derive.rs                 | 23 ++++++++++++++++---
 pin-project-internal/src/utils.rs             | 11 +++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 5cbfa8d..c98714f 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -30,7 +30,15 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_struct_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Struct)?;
+            let types = input.fields.iter().map(|f| &f.ty);
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                types,
+                Struct,
+            )?;
             parse_struct(&mut cx, &input.fields, &mut generate)?;
         }
         Item::Enum(input) => {
@@ -39,7 +47,15 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_enum_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Enum)?;
+            let types = input.variants.iter().flat_map(|v| v.fields.iter().map(|f| &f.ty));
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                types,
+                Enum,
+            )?;
             parse_enum(&mut cx, input.brace_token, &input.variants, &mut generate)?;
         }
         _ => bail!(input, "#[pin_project] attribute may only be used on structs or enums"),
@@ -196,6 +212,7 @@ impl<'a> Context<'a> {
         vis: &'a Visibility,
         ident: &'a Ident,
         generics: &'a mut Generics,
+        field_types: impl Iterator<Item = &'a Type>,
         kind: TypeKind,
     ) -> Result<Self> {
         let Args { pinned_drop, unpin_impl, project, project_ref, project_replace } =
@@ -210,7 +227,7 @@ impl<'a> Context<'a> {
         }
 
         let mut lifetime_name = String::from("'pin");
-        determine_lifetime_name(&mut lifetime_name, generics);
+        determine_lifetime_name(&mut lifetime_name, generics, field_types);
         let lifetime = Lifetime::new(&lifetime_name, Span::call_site());
 
         let ty_generics = generics.split_for_impl().1;
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 2e66247..3d83868 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -24,8 +24,12 @@ macro_rules! parse_quote_spanned {
 }
 
 /// Determines the lifetime names. Ensure it doesn't overlap with any existing
-/// lifetime names.
-pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut Generics) {
+/// lifetime names, including those bound by `for<...>` in the field types.
+pub(crate) fn determine_lifetime_name<'a>(
+    lifetime_name: &mut String,
+    generics: &mut Generics,
+    field_types: impl Iterator<Item = &'a Type>,
+) {
     struct CollectLifetimes(Vec<String>);
 
     impl VisitMut for CollectLifetimes {
@@ -38,6 +42,9 @@ pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut
 
     let mut lifetimes = CollectLifetimes(vec![]);
     lifetimes.visit_generics_mut(generics);
+    for ty in field_types {
+        lifetimes.visit_type_mut(&mut ty.clone());
+    }
 
     while lifetimes.0.iter().any(|name| name.starts_with(&**lifetime_name)) {
         lifetime_name.push('_');
-- 
2.43.0


From 438f1a796416e35b0281c84832eadf9ff0fd61a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:36 +0000
Subject: [PATCH 04/12] fix: make project_replace's local names hygienic

---
 pin-project-internal/src/pin_project/derive.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index c98714f..d9bfae3 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -684,9 +684,13 @@ fn proj_own_body(
     // Refs: https://doc.rust-lang.org/reference/destructors.html
     let pinned_fields = pinned_fields.iter().rev();
 
+    // The names of the fields are in scope, so these must be hygienic.
+    let result = Ident::new("__result", Span::mixed_site());
+    let guard = Ident::new("__guard", Span::mixed_site());
+
     quote! {
         // First, extract all the unpinned fields.
-        let __result = #proj_own #proj_move;
+        let #result = #proj_own #proj_move;
 
         // Now create guards to drop all the pinned fields.
         //
@@ -695,12 +699,12 @@ fn proj_own_body(
         // if any of the destructors panic.
         {
             #(
-                let __guard = _pin_project::__private::UnsafeDropInPlaceGuard::new(#pinned_fields);
+                let #guard = _pin_project::__private::UnsafeDropInPlaceGuard::new(#pinned_fields);
             )*
         }
 
         // Finally, return the result.
-        __result
+        #result
     }
 }
 
-- 
2.43.0


From b06d1f5d84953803fd6cbaea5ec76c7c5f061e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:34 +0000
Subject: [PATCH 05/12] fix: make `Self` in macro arguments of #[pinned_drop]
 work in patterns and expressions

---
 pin-project-internal/src/utils.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 3d83868..bdf3fa6 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -221,13 +221,7 @@ impl ReplaceReceiver<'_> {
 
         let self_ty = self.self_ty(first.ident.span());
         let variant = mem::replace(path, self_ty.path);
-        for segment in &mut path.segments {
-            if let PathArguments::AngleBracketed(bracketed) = &mut segment.arguments {
-                if bracketed.colon2_token.is_none() && !bracketed.args.is_empty() {
-                    bracketed.colon2_token = Some(<Token![::]>::default());
-                }
-            }
-        }
+        add_turbofish(path);
         if variant.segments.len() > 1 {
             path.segments.push_punct(<Token![::]>::default());
             path.segments.extend(variant.segments.into_pairs().skip(1));
@@ -244,14 +238,19 @@ impl ReplaceReceiver<'_> {
                     modified |= prepend_underscore_to_self(&mut ident);
                     if ident == "Self" {
                         modified = true;
-                        let self_ty = self.self_ty(ident.span());
+                        let mut self_ty = self.self_ty(ident.span());
+                        // We don't know whether this is a type, an expression, or a
+                        // pattern, so use the syntax that is valid in all of them.
+                        add_turbofish(&mut self_ty.path);
                         match iter.peek() {
                             Some(TokenTree::Punct(p))
                                 if p.as_char() == ':' && p.spacing() == Spacing::Joint =>
                             {
                                 let next = iter.next().unwrap();
                                 match iter.peek() {
-                                    Some(TokenTree::Punct(p)) if p.as_char() == ':' => {
+                                    Some(TokenTree::Punct(p))
+                                        if p.as_char() == ':' && self_ty.qself.is_some() =>
+                                    {
                                         let span = ident.span();
                                         out.extend(quote_spanned!(span=> <#self_ty>));
                                     }
@@ -360,6 +359,17 @@ impl VisitMut for ReplaceReceiver<'_> {
     }
 }
 
+/// `Type<Arg>` -> `Type::<Arg>`
+fn add_turbofish(path: &mut Path) {
+    for segment in &mut path.segments {
+        if let PathArguments::AngleBracketed(bracketed) = &mut segment.arguments {
+            if bracketed.colon2_token.is_none() && !bracketed.args.is_empty() {
+                bracketed.colon2_token = Some(<Token![::]>::default());
+            }
+        }
+    }
+}
+
 fn contains_fn(tokens: TokenStream) -> bool {
     tokens.into_iter().any(|tt| match tt {
         TokenTree::Ident(ident) => ident == "fn",
-- 
2.43.0


From 86fc93f030a58797667a54c4b7ab14523fff9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:26 +0000
Subject: [PATCH 06/12] fix: keep module-relative paths in macro arguments of
 #[pinned_drop]

---
 pin-project-internal/src/utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index bdf3fa6..e81535f 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -235,7 +235,15 @@ impl ReplaceReceiver<'_> {
         while let Some(tt) = iter.next() {
             match tt {
                 TokenTree::Ident(mut ident) => {
-                    modified |= prepend_underscore_to_self(&mut ident);
+                    // `self::path` is a path relative to the current module.
+                    let is_path = matches!(
+                        iter.peek(),
+                        Some(TokenTree::Punct(p))
+                            if p.as_char() == ':' && p.spacing() == Spacing::Joint
+                    );
+                    if !is_path {
+                        modified |= prepend_underscore_to_self(&mut ident);
+                    }
                     if ident == "Self" {
                         modified = true;
                         let mut self_ty = self.self_ty(ident.span());
-- 
2.43.0


From c45744e414b65460d860e0988459eb51915517b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:03 +0000
Subject: [PATCH 07/12] fix: keep <Type>::item for `Self::item` in macro
 arguments of #[pinned_drop] unless a struct is meant

This restores the expansion that existing code gets for associated items.
---
 pin-project-internal/src/utils.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index e81535f..8741ff3 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -2,7 +2,7 @@
 
 use std::mem;
 
-use proc_macro2::{Group, Spacing, Span, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Spacing, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote, quote_spanned};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
@@ -254,10 +254,19 @@ impl ReplaceReceiver<'_> {
                             Some(TokenTree::Punct(p))
                                 if p.as_char() == ':' && p.spacing() == Spacing::Joint =>
                             {
+                                // `<Type>::Variant { .. }` is not (yet) valid syntax.
+                                let mut rest = iter.clone().skip(2);
+                                let is_struct = self_ty.qself.is_none()
+                                    && matches!(rest.next(), Some(TokenTree::Ident(_)))
+                                    && matches!(
+                                        rest.next(),
+                                        Some(TokenTree::Group(g))
+                                            if g.delimiter() == Delimiter::Brace
+                                    );
                                 let next = iter.next().unwrap();
                                 match iter.peek() {
                                     Some(TokenTree::Punct(p))
-                                        if p.as_char() == ':' && self_ty.qself.is_some() =>
+                                        if p.as_char() == ':' && !is_struct =>
                                     {
                                         let span = ident.span();
                                         out.extend(quote_spanned!(span=> <#self_ty>));
-- 
2.43.0


From 5c048ab03772dce2d363204087305588b5b29d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:45 +0000
Subject: [PATCH 08/12] fix: keep pub(self) on an annotated type and its fields

---
 pin-project-internal/src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 8741ff3..84177d8 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -353,6 +353,10 @@ impl VisitMut for ReplaceReceiver<'_> {
         }
     }
 
+    fn visit_visibility_mut(&mut self, _: &mut Visibility) {
+        // `self` in `pub(self)` is the current module.
+    }
+
     fn visit_item_mut(&mut self, item: &mut Item) {
         match item {
             // Visit `macro_rules!` because locally defined macros can refer to `self`.
-- 
2.43.0


From 4ad86d5a51dfec8388db31b97cb82b56b55606c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:23 +0000
Subject: [PATCH 09/12] fix: do not recurse endlessly on Self in the self type
 of a pinned_drop impl

#[pinned_drop] impl PinnedDrop for Self::S { .. } overflowed the compiler's stack
when the body mentions Self::item.
---
 pin-project-internal/src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 84177d8..857fe76 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -316,8 +316,11 @@ impl VisitMut for ReplaceReceiver<'_> {
     fn visit_type_path_mut(&mut self, ty: &mut TypePath) {
         if ty.qself.is_none() {
             self.self_to_qself(&mut ty.qself, &mut ty.path);
+            // Do not visit the inserted receiver type: it may contain `Self` itself.
+            self.visit_path_mut(&mut ty.path);
+        } else {
+            visit_mut::visit_type_path_mut(self, ty);
         }
-        visit_mut::visit_type_path_mut(self, ty);
     }
 
     // `Self::method` -> `<Receiver>::method`
-- 
2.43.0


From 2ea4ebfd6fc37813288d5aa3e5b6743bfec2e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:20 +0000
Subject: [PATCH 10/12] fix: allow an unsized #[pin] field in types with
 lifetime parameters

The struct that carries the types of the #[pin] fields put a field for each
lifetime parameter after them, so that a pinned field of unsized type was not
the last one, and the expansion did not compile.
---
 pin-project-internal/src/pin_project/derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index d9bfae3..23ea955 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -846,8 +846,9 @@ fn make_unpin_impl(cx: &Context<'_>) -> TokenStream {
                         #lifetime, (#(_pin_project::__private::PhantomData<#type_params>),*)
                     >,
 
-                    #(#fields,)*
                     #(#lifetime_fields,)*
+                    // Only the last field of a struct may be unsized.
+                    #(#fields,)*
                 }
 
                 impl #impl_generics _pin_project::__private::Unpin for #orig_ident #ty_generics
-- 
2.43.0


From a921cac84a637a5aeff01ea30b86ed26e4c72981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:02 +0000
Subject: [PATCH 11/12] fix: do not clash with raw lifetimes of the annotated
 type

---
 pin-project-internal/src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 857fe76..c1db076 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -8,6 +8,7 @@ use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
     TypeParamBound, TypePath, Variant, Visibility, WherePredicate,
+    ext::IdentExt as _,
     parse::{Parse, ParseBuffer, ParseStream},
     parse_quote,
     punctuated::Punctuated,
@@ -34,7 +35,8 @@ pub(crate) fn determine_lifetime_name<'a>(
 
     impl VisitMut for CollectLifetimes {
         fn visit_lifetime_param_mut(&mut self, def: &mut LifetimeParam) {
-            self.0.push(def.lifetime.to_string());
+            // `'r#pin` is the same lifetime as `'pin`.
+            self.0.push(format!("'{}", def.lifetime.ident.unraw()));
         }
     }
 
-- 
2.43.0


From f724bedaebbec89769692c1c80e9ac2bd527251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:00 +0000
Subject: [PATCH 12/12] fix: recognise raw identifiers in attribute names

#[r#pin] is the same attribute as #[pin] for the compiler, and was silently
ignored: the field was projected as unpinned. In the same way, packed types
were not recognised when written #[r#repr(packed)] or #[repr(r#packed)].
---
 pin-project-internal/src/pin_project/args.rs   |  4 ++--
 pin-project-internal/src/pin_project/derive.rs |  6 +++---
 pin-project-internal/src/utils.rs              | 10 ++++++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pin-project-internal/src/pin_project/args.rs b/pin-project-internal/src/pin_project/args.rs
index b1ad058..8e29f42 100644
--- a/pin-project-internal/src/pin_project/args.rs
+++ b/pin-project-internal/src/pin_project/args.rs
@@ -9,7 +9,7 @@ use syn::{
 };
 
 use super::PIN;
-use crate::utils::{ParseBufferExt as _, SliceExt as _};
+use crate::utils::{ParseBufferExt as _, SliceExt as _, is_ident};
 
 pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
     // `(__private(<args>))` -> `<args>`
@@ -32,7 +32,7 @@ pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
         bail!(attr, "duplicate #[pin_project] attribute");
     }
 
-    let mut attrs = attrs.iter().filter(|attr| attr.path().is_ident(PIN));
+    let mut attrs = attrs.iter().filter(|attr| is_ident(attr.path(), PIN));
 
     let prev = if let Some(attr) = attrs.next() {
         (attr, syn::parse2::<Input>(attr.meta.require_list()?.tokens.clone())?.0)
diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 23ea955..bd845bd 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -14,7 +14,7 @@ use super::{
 };
 use crate::utils::{
     ReplaceReceiver, SliceExt as _, Variants, determine_lifetime_name, determine_visibility,
-    insert_lifetime_and_bound,
+    insert_lifetime_and_bound, is_ident,
 };
 
 pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
@@ -1063,9 +1063,9 @@ fn make_proj_impl(
 fn ensure_not_packed(orig: &OriginalType<'_>, fields: Option<&Fields>) -> Result<TokenStream> {
     for attr in orig.attrs {
         if let Meta::List(ref list) = attr.meta {
-            if list.path.is_ident("repr") {
+            if is_ident(&list.path, "repr") {
                 for repr in list.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)? {
-                    if repr.path().is_ident("packed") {
+                    if is_ident(repr.path(), "packed") {
                         let msg = if fields.is_none() {
                             // #[repr(packed)] cannot be apply on enums and will be rejected by rustc.
                             // However, we should not rely on the behavior of rustc that rejects this.
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index c1db076..eb718bc 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -114,6 +114,12 @@ fn respan_tokens(tokens: TokenStream, span: Span) -> TokenStream {
         .collect()
 }
 
+/// Like `Path::is_ident`, but `r#name` is the same as `name`, as it is for the
+/// compiler when it resolves attributes.
+pub(crate) fn is_ident(path: &Path, ident: &str) -> bool {
+    path.get_ident().map_or(false, |path| path.unraw() == ident)
+}
+
 // -----------------------------------------------------------------------------
 // extension traits
 
@@ -130,7 +136,7 @@ impl SliceExt for [Attribute] {
     fn position_exact(&self, ident: &str) -> Result<Option<usize>> {
         self.iter()
             .try_fold((0, None), |(i, mut prev), attr| {
-                if attr.path().is_ident(ident) {
+                if is_ident(attr.path(), ident) {
                     if prev.replace(i).is_some() {
                         bail!(attr, "duplicate #[{}] attribute", ident);
                     }
@@ -142,7 +148,7 @@ impl SliceExt for [Attribute] {
     }
 
     fn find(&self, ident: &str) -> Option<&Attribute> {
-        self.iter().position(|attr| attr.path().is_ident(ident)).map(|i| &self[i])
+        self.iter().position(|attr| is_ident(attr.path(), ident)).map(|i| &self[i])
     }
 }
 
-- 
2.43.0

