From d8fc685d185a0e95e65df7b9b2fa1d20d195dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 1/7] fix: expand slots in a deterministic order

The slots were grouped in a HashMap, so the order of the slot builder
methods (and so the order in which their contents are evaluated and moved)
changed from one compilation to the next.
---
 leptos-mview-core/src/expand.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 7acabe7..110956b 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -3,7 +3,7 @@
 // putting specific `-> TokenStream` implementations here to have it all
 // grouped instead of scattered throughout struct impls.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
@@ -337,11 +337,12 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
 /// ```
 /// Where the slot's name is converted to snake_case for the method name.
 fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStream {
-    // collect to hashmap //
+    // collect to map //
 
     // Mapping from the slot name (component, UpperCamelCase name, not snake_case)
-    // to a vec of the each slot's expansion.
-    let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
+    // to a vec of the each slot's expansion. This must be an ordered map: the
+    // expansion has to be the same every time the macro is run.
+    let mut slot_children = BTreeMap::<syn::Ident, Vec<TokenStream>>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
             panic!("called `slots_to_tokens` on non-slot element")
-- 
2.43.0


From 0a4b88a8c222fc3f6187f1d7f1097e01510e44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 2/7] fix: report an error for slots that are not components

`slot:div;` inside a component panicked the macro instead of showing an
error at the slot.
---
 leptos-mview-core/src/expand.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 110956b..19bef55 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -316,7 +316,8 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
 /// Converts a list of slots to a bunch of methods to be called on the parent
 /// component.
 ///
-/// The iterator must have only elements that are slots.
+/// Elements that are not components can't be slots: an error is emitted for
+/// them.
 ///
 /// Slots are expanded from:
 /// ```ignore
@@ -345,7 +346,11 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     let mut slot_children = BTreeMap::<syn::Ident, Vec<TokenStream>>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
-            panic!("called `slots_to_tokens` on non-slot element")
+            emit_error!(
+                el.tag().span(),
+                "slots must be components, starting with an uppercase letter"
+            );
+            continue;
         };
         let slot_name = if let Some(ident) = path.get_ident() {
             ident.clone()
-- 
2.43.0


From f97346381529dd25070b6ad876d4ceb3d11434b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 3/7] fix: don't panic on identifiers that can't be raw

`self`, `Self`, `super`, `crate` and `_` (or a lone `-`) as a tag, key,
shorthand or slot name made `Ident::new_raw` panic.
---
 leptos-mview-core/src/ast/ident.rs | 16 ++++++++++++++--
 leptos-mview-core/src/expand.rs    |  4 ++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/leptos-mview-core/src/ast/ident.rs b/leptos-mview-core/src/ast/ident.rs
index a61a9e9..68fc974 100644
--- a/leptos-mview-core/src/ast/ident.rs
+++ b/leptos-mview-core/src/ast/ident.rs
@@ -95,14 +95,26 @@ impl KebabIdent {
     /// covers the full ident on nightly. See [`KebabIdent::span`] for more
     /// details.
     ///
-    /// The ident will also be a raw identifier.
+    /// The ident will also be a raw identifier, unless it can't be one (see
+    /// [`new_raw_ident`]).
     pub fn to_snake_ident(&self) -> syn::Ident {
         let snake_string = self.repr().replace('-', "_");
         // This will always be valid as the first 'section' must be a `-` or rust ident,
         // which means it starts with `_` or another valid identifier beginning. The int
         // literals within the ident (e.g. between `-`s, like `blue-100`) are allowed
         // since the ident does not start with a number.
-        syn::Ident::new_raw(&snake_string, self.span())
+        new_raw_ident(&snake_string, self.span())
+    }
+}
+
+/// Creates a raw identifier, falling back to a regular identifier for those
+/// that are not allowed to be raw (`self`, `super`, `_`, ...), where
+/// [`syn::Ident::new_raw`] panics.
+pub fn new_raw_ident(string: &str, span: Span) -> syn::Ident {
+    if matches!(string, "_" | "self" | "Self" | "super" | "crate") {
+        syn::Ident::new(string, span)
+    } else {
+        syn::Ident::new_raw(string, span)
     }
 }
 
diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 19bef55..7f492ea 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -12,7 +12,7 @@ use syn::{ext::IdentExt, parse_quote, parse_quote_spanned, spanned::Spanned};
 
 use crate::ast::{
     attribute::{directive::Directive, selector::SelectorShorthand},
-    Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
+    new_raw_ident, Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
 };
 
 /// Functions for specific parts of an element's expansion.
@@ -371,7 +371,7 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     slot_children
         .into_iter()
         .map(|(slot_name, slot_tokens)| {
-            let method = syn::Ident::new_raw(
+            let method = new_raw_ident(
                 &utils::upper_camel_to_snake_case(&slot_name.unraw().to_string()),
                 slot_name.span(),
             );
-- 
2.43.0


From 8e080384eb378f9a99d6078f59d48e1454e4618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 4/7] fix: report slots and closure arguments on xml elements

Slots and closure arguments of an html/svg/math/web-component element were
silently left out of the expansion.
---
 leptos-mview-core/src/expand.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 7f492ea..41b8f65 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -113,6 +113,19 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    if let Some(slot) = element.children().and_then(|c| c.slot_children().next()) {
+        emit_error!(
+            slot.tag().span(),
+            "slots should be inside a parent that supports slots"
+        );
+    }
+    if let Some(args) = element.children_args() {
+        emit_error!(
+            args.span(),
+            "closure arguments are only supported on components"
+        );
+    }
+
     let children = element
         .children()
         .map(|children| xml_child_methods_tokens(children.element_children()));
-- 
2.43.0


From 63d1aaf61d9f6b516eff3b4f88aa683397be190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 5/7] fix: expand slots nested directly inside a slot

The slots inside of a slot were silently left out of the expansion.
---
 leptos-mview-core/src/expand.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 41b8f65..2f50cff 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -294,6 +294,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
                 #path::builder()
                     #attrs
                     #children
+                    #slot_children
                     #build
             )
         })
-- 
2.43.0


From 9bbcdfedc1cafc2a9142eb8d36c7c89a849043d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 6/7] fix: expand `prop:` on components to `property::prop`

It expanded to a function named after the property, which does not exist.
---
 leptos-mview-core/src/expand/subroutines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 70852e5..9e5af9a 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -411,10 +411,10 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "prop" => {
-            let prop = directive.key.to_ident_or_emit();
+            let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
             quote! {
-                ::leptos::tachys::html::property::#prop(#value)
+                ::leptos::tachys::html::property::prop(#key, #value)
             }
         }
         "on" => {
-- 
2.43.0


From 90cbf1503fad0bbfbf5d0ca6bdb2bb8a4fbd91c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 7/7] fix: report unknown modifiers of directives on components

A modifier on `class:`, `style:`, `attr:` or `prop:` was silently ignored
on components.
---
 leptos-mview-core/src/expand/subroutines.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 9e5af9a..f6e1367 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -370,7 +370,11 @@ pub(super) fn component_children_tokens<'a>(
 /// ```
 pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenStream> {
     let dir = &directive.dir;
-    let path = match &*dir.to_string() {
+    let dir_name = dir.to_string();
+    if matches!(&*dir_name, "class" | "style" | "attr" | "prop") {
+        emit_error_if_modifier(directive.modifier.as_ref());
+    }
+    let path = match &*dir_name {
         "class" | "style" => {
             // avoid making it string coloured
             let key = directive.key.to_unspanned_string();
-- 
2.43.0

