From c661fbdd50fb35417eb2e233689dd7a70e3c0938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 01/23] fix: use the existing tachys paths for SVG and MathML
 elements

`tachys::svg::element` and `tachys::math` do not exist, so no SVG or MathML
element could be used at all.
---
 leptos-mview-core/src/expand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 7acabe7..f6b5d78 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -86,8 +86,8 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
     let tag_path = match element.tag() {
         Tag::Component(..) => return None,
         Tag::Html(ident) => quote! { ::leptos::tachys::html::element::#ident() },
-        Tag::Svg(ident) => quote! { ::leptos::tachys::svg::element::#ident() },
-        Tag::Math(ident) => quote! { ::leptos::tachys::math::element::#ident() },
+        Tag::Svg(ident) => quote! { ::leptos::tachys::svg::#ident() },
+        Tag::Math(ident) => quote! { ::leptos::tachys::mathml::#ident() },
         Tag::WebComponent(ident) => {
             let ident = ident.to_lit_str();
             let custom = syn::Ident::new("custom", ident.span());
-- 
2.43.0


From a7d8e15d6e0bbe8266f7bd8bb63b7e149906970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 02/23] fix: expand `prop:` on components to
 `property::prop(key, value)`

There are no per-property functions in `tachys::html::property`, so `prop:`
on a component could never compile.
---
 leptos-mview-core/src/expand/subroutines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 70852e5..2885ebf 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -411,10 +411,10 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "prop" => {
-            let prop = directive.key.to_ident_or_emit();
+            let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
             quote! {
-                ::leptos::tachys::html::property::#prop(#value)
+                ::leptos::tachys::html::property::#dir(#key, #value)
             }
         }
         "on" => {
-- 
2.43.0


From 94e516111af22fe176e4f8c1b02bf516d0b0b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 03/23] fix: reject modifiers on component directives other
 than `on:`

They were silently ignored on `class:`, `style:`, `attr:` and `prop:`.
---
 leptos-mview-core/src/expand/subroutines.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 2885ebf..0c315ce 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -370,6 +370,9 @@ pub(super) fn component_children_tokens<'a>(
 /// ```
 pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenStream> {
     let dir = &directive.dir;
+    if matches!(&*dir.to_string(), "class" | "style" | "attr" | "prop") {
+        emit_error_if_modifier(directive.modifier.as_ref());
+    }
     let path = match &*dir.to_string() {
         "class" | "style" => {
             // avoid making it string coloured
-- 
2.43.0


From 2a4274cee5c34688dbbd40166448f3615c38e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 04/23] fix: report slots inside elements instead of dropping
 them

---
 leptos-mview-core/src/expand.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index f6b5d78..394d1da 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -113,9 +113,15 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
-    let children = element
-        .children()
-        .map(|children| xml_child_methods_tokens(children.element_children()));
+    let children = element.children().map(|children| {
+        for slot in children.slot_children() {
+            emit_error!(
+                slot.tag().span(),
+                "slots should be inside a parent that supports slots"
+            );
+        }
+        xml_child_methods_tokens(children.element_children())
+    });
 
     Some(quote! {
         #tag_path
-- 
2.43.0


From af169513af93c645416c38dac91aada3234db586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 05/23] fix: pass slots nested in a slot to that slot's builder

They were silently dropped.
---
 leptos-mview-core/src/expand.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 394d1da..5717836 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -287,6 +287,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
                 #path::builder()
                     #attrs
                     #children
+                    #slot_children
                     #build
             )
         })
-- 
2.43.0


From 5a968d702dd2a780c19aa74072f1909ed2989b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 06/23] fix: report an error instead of panicking on slots that
 are not components

---
 leptos-mview-core/src/expand.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 5717836..8b0ba6e 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -351,7 +351,11 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
-            panic!("called `slots_to_tokens` on non-slot element")
+            emit_error!(
+                el.tag().span(),
+                "slot name must be in UpperCamelCase, like a component"
+            );
+            continue;
         };
         let slot_name = if let Some(ident) = path.get_ident() {
             ident.clone()
-- 
2.43.0


From db7af0e8a9124382e52f789230b591282ba6d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 07/23] fix: expand slots in a deterministic order

The order of the slot methods depended on the iteration order of a randomly
seeded `HashMap`, so it changed from one compilation to the next.
---
 leptos-mview-core/src/expand.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 8b0ba6e..f7a7733 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -3,8 +3,6 @@
 // putting specific `-> TokenStream` implementations here to have it all
 // grouped instead of scattered throughout struct impls.
 
-use std::collections::HashMap;
-
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
 use quote::{quote, quote_spanned};
@@ -344,11 +342,12 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
 /// ```
 /// Where the slot's name is converted to snake_case for the method name.
 fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStream {
-    // collect to hashmap //
+    // group by name //
 
     // Mapping from the slot name (component, UpperCamelCase name, not snake_case)
-    // to a vec of the each slot's expansion.
-    let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
+    // to a vec of the each slot's expansion, in order of first appearance so that
+    // the expansion is deterministic.
+    let mut slot_children = Vec::<(syn::Ident, Vec<TokenStream>)>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
             emit_error!(
@@ -366,10 +365,10 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
 
         let slot_component =
             component_to_tokens::<true>(el).expect("checked that element is a component");
-        slot_children
-            .entry(slot_name)
-            .or_default()
-            .push(slot_component);
+        match slot_children.iter_mut().find(|(name, _)| *name == slot_name) {
+            Some((_, slots)) => slots.push(slot_component),
+            None => slot_children.push((slot_name, vec![slot_component])),
+        }
     }
 
     // convert to tokens //
-- 
2.43.0


From 6d4a5ce3cbe8f1692053ceb2db1c98166c5fdf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 08/23] fix: report closure arguments on elements instead of
 dropping them

---
 leptos-mview-core/src/expand.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index f7a7733..7dd56cd 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -111,6 +111,13 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    if let Some(args) = element.children_args() {
+        emit_error!(
+            args.span(),
+            "closure arguments are only supported on the children of components and slots"
+        );
+    }
+
     let children = element.children().map(|children| {
         for slot in children.slot_children() {
             emit_error!(
-- 
2.43.0


From 5841ae0b27091dec72c93ffabc561e834ffd7acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 09/23] fix: join multiple id selectors on an element into one
 `id` attribute

`div #a #b` rendered two `id` attributes. Components already join them.
---
 leptos-mview-core/src/expand/subroutines.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 0c315ce..2ac4a33 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -14,6 +14,7 @@ use crate::{
         KebabIdentOrStr, NodeChild, TagKind, Value,
     },
     expand::{children_fragment_tokens, emit_error_if_modifier},
+    span,
 };
 
 ////////////////////////////////////////////////////////////////
@@ -133,13 +134,21 @@ pub(super) fn xml_selectors_tokens(selectors: &SelectorShorthands) -> TokenStrea
         quote! { .#method((#class_name, true)) }
     });
 
-    let id_methods = ids.iter().map(|id| {
-        let method = syn::Ident::new("id", id.prefix().span());
-        let id_name = id.ident().to_str_colored();
-        quote! { .#method(#id_name) }
+    // all the ids need to be collected together
+    // as calling `.id` multiple times creates multiple `id=...` attributes on the
+    // element
+    let id_method = ids.first().map(|first| {
+        let method = syn::Ident::new("id", first.prefix().span());
+        let dummy_items = span::color_all(ids.iter().flat_map(|id| id.ident().spans()));
+        let joined_ids = ids
+            .iter()
+            .map(|id| id.ident().repr())
+            .collect::<Vec<_>>()
+            .join(" ");
+        quote! { .#method({#(#dummy_items)* #joined_ids}) }
     });
 
-    quote! { #(#class_methods)* #(#id_methods)* }
+    quote! { #(#class_methods)* #id_method }
 }
 
 pub(super) fn xml_kv_attribute_tokens(attr: &KvAttr, element_tag: TagKind) -> TokenStream {
-- 
2.43.0


From d93b8dd2256cd3c0038bb759b001f6227fdeecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:16 +0000
Subject: [PATCH 10/23] fix: report an error instead of panicking on names that
 cannot be raw identifiers

`_`, `self`, `Self`, `super` and `crate` panicked the macro wherever they were
used as a tag, key, shorthand or (snake cased) slot name.
---
 leptos-mview-core/src/ast/ident.rs | 13 ++++++++++++-
 leptos-mview-core/src/expand.rs    |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/leptos-mview-core/src/ast/ident.rs b/leptos-mview-core/src/ast/ident.rs
index a61a9e9..0a05191 100644
--- a/leptos-mview-core/src/ast/ident.rs
+++ b/leptos-mview-core/src/ast/ident.rs
@@ -102,7 +102,18 @@ impl KebabIdent {
         // which means it starts with `_` or another valid identifier beginning. The int
         // literals within the ident (e.g. between `-`s, like `blue-100`) are allowed
         // since the ident does not start with a number.
-        syn::Ident::new_raw(&snake_string, self.span())
+        raw_ident_or_emit(&snake_string, self.span())
+    }
+}
+
+/// Creates a raw identifier, or emits an error and returns a placeholder if
+/// `name` is one of the few identifiers that cannot be raw.
+pub fn raw_ident_or_emit(name: &str, span: Span) -> syn::Ident {
+    if matches!(name, "_" | "self" | "Self" | "super" | "crate" | "$crate") {
+        emit_error!(span, "`{}` cannot be used as an identifier", name);
+        syn::Ident::new("__invalid_identifier_found_keyword", span)
+    } else {
+        syn::Ident::new_raw(name, span)
     }
 }
 
diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 7dd56cd..00f465a 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -10,7 +10,7 @@ use syn::{ext::IdentExt, parse_quote, parse_quote_spanned, spanned::Spanned};
 
 use crate::ast::{
     attribute::{directive::Directive, selector::SelectorShorthand},
-    Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
+    raw_ident_or_emit, Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
 };
 
 /// Functions for specific parts of an element's expansion.
@@ -382,7 +382,7 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     slot_children
         .into_iter()
         .map(|(slot_name, slot_tokens)| {
-            let method = syn::Ident::new_raw(
+            let method = raw_ident_or_emit(
                 &utils::upper_camel_to_snake_case(&slot_name.unraw().to_string()),
                 slot_name.span(),
             );
-- 
2.43.0


From 85e00bf226833018d4e474d5664b0d22e872485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:39 +0000
Subject: [PATCH 11/23] fix: support more than 26 children

The view traits are only implemented on tuples of up to 26 items, so nest the
tuples when there are more, like `view!` does.
---
 leptos-mview-core/src/expand.rs             | 15 +++++++++++++-
 leptos-mview-core/src/expand/subroutines.rs | 22 +++++++++++++++++----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 00f465a..f830a65 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -5,7 +5,7 @@
 
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
-use quote::{quote, quote_spanned};
+use quote::{quote, quote_spanned, ToTokens};
 use syn::{ext::IdentExt, parse_quote, parse_quote_spanned, spanned::Spanned};
 
 use crate::ast::{
@@ -45,6 +45,16 @@ pub fn children_fragment_tokens<'a>(
     children: impl Iterator<Item = &'a NodeChild>,
     span: Span,
 ) -> TokenStream {
+    // the view traits are only implemented on tuples of up to 26 items, but they
+    // can be nested.
+    let mut children: Vec<_> = children.map(ToTokens::to_token_stream).collect();
+    while children.len() > MAX_TUPLE_LEN {
+        children = children
+            .chunks(MAX_TUPLE_LEN)
+            .map(|chunk| quote_spanned! { span=> ( #( #chunk, )* ) })
+            .collect();
+    }
+
     quote_spanned! { span=>
         ::leptos::prelude::View::new((
             #( #children, )*
@@ -52,6 +62,9 @@ pub fn children_fragment_tokens<'a>(
     }
 }
 
+/// The maximum number of items in a tuple that implements the view traits.
+const MAX_TUPLE_LEN: usize = 26;
+
 /// Converts an xml (like html, svg or math) element to tokens.
 ///
 /// Returns `None` if the element is not an xml element (custom component).
diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 2ac4a33..a5a84ef 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
-use quote::{quote, quote_spanned};
+use quote::{quote, quote_spanned, ToTokens};
 use syn::{ext::IdentExt, spanned::Spanned};
 
 use crate::{
@@ -13,7 +13,7 @@ use crate::{
         },
         KebabIdentOrStr, NodeChild, TagKind, Value,
     },
-    expand::{children_fragment_tokens, emit_error_if_modifier},
+    expand::{children_fragment_tokens, emit_error_if_modifier, MAX_TUPLE_LEN},
     span,
 };
 
@@ -243,9 +243,23 @@ pub(super) fn xml_spread_tokens(attr: &SpreadAttr) -> TokenStream {
 pub(super) fn xml_child_methods_tokens<'a>(
     children: impl Iterator<Item = &'a NodeChild>,
 ) -> TokenStream {
+    // every `.child` call adds an item to a tuple, which has a limited size.
+    let mut children: Vec<_> = children
+        .map(|child| (child.span(), child.to_token_stream()))
+        .collect();
+    while children.len() > MAX_TUPLE_LEN {
+        children = children
+            .chunks(MAX_TUPLE_LEN)
+            .map(|chunk| {
+                let items = chunk.iter().map(|(_, child)| child);
+                (chunk[0].0, quote! { ( #( #items, )* ) })
+            })
+            .collect();
+    }
+
     let mut ts = TokenStream::new();
-    for child in children {
-        let child_method = syn::Ident::new("child", child.span());
+    for (span, child) in children {
+        let child_method = syn::Ident::new("child", span);
         ts.extend(quote! {
             .#child_method(#child)
         });
-- 
2.43.0


From 0da123ba6cdfb79f15aa50f47756fd3048d526d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:09 +0000
Subject: [PATCH 12/23] fix: accept component paths with a leading `::`

---
 leptos-mview-core/src/ast/children.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/ast/children.rs b/leptos-mview-core/src/ast/children.rs
index 796b9fb..ee4335b 100644
--- a/leptos-mview-core/src/ast/children.rs
+++ b/leptos-mview-core/src/ast/children.rs
@@ -76,7 +76,8 @@ impl Parse for Child {
             <Token![:]>::parse(input).unwrap();
             let elem = Element::parse(input)?;
             Ok(Self::Slot(slot, elem))
-        } else if input.peek(syn::Ident::peek_any) {
+        // component paths can start with `::`
+        } else if input.peek(syn::Ident::peek_any) || input.peek(Token![::]) {
             let elem = Element::parse(input)?;
             Ok(Self::Node(NodeChild::Element(elem)))
         } else {
-- 
2.43.0


From 1d6c49d73e00a9f9f7bf79a1d2ec0164304a9d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 13/23] fix: report empty spreads instead of expanding to a
 syntax error

---
 leptos-mview-core/src/ast/attribute/spread_attrs.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/ast/attribute/spread_attrs.rs b/leptos-mview-core/src/ast/attribute/spread_attrs.rs
index 2303af6..b89dcf8 100644
--- a/leptos-mview-core/src/ast/attribute/spread_attrs.rs
+++ b/leptos-mview-core/src/ast/attribute/spread_attrs.rs
@@ -1,4 +1,6 @@
 use proc_macro2::{Span, TokenStream};
+use proc_macro_error2::emit_error;
+use quote::quote_spanned;
 use syn::{
     parse::{Parse, ParseStream},
     Token,
@@ -22,7 +24,12 @@ impl Parse for SpreadAttr {
         let (braces, stream) = extract_braced(input)?;
 
         if let Some(dotdot) = rollback_err(&stream, <Token![..]>::parse) {
-            let rest = stream.parse::<TokenStream>().unwrap();
+            let mut rest = stream.parse::<TokenStream>().unwrap();
+            if rest.is_empty() {
+                // expand to something valid, so that this is the only error
+                emit_error!(braces.span.join(), "expected an expression after `..`");
+                rest = quote_spanned!(braces.span.join()=> ());
+            }
 
             Ok(Self {
                 braces,
-- 
2.43.0


From 6c722e9ad9569c2e4f7af7a9df331416c2fb93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 14/23] fix: place errors about input that ends too early at
 its end, not at the call site

---
 leptos-mview-core/src/lib.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/leptos-mview-core/src/lib.rs b/leptos-mview-core/src/lib.rs
index 11abed9..d1048c6 100644
--- a/leptos-mview-core/src/lib.rs
+++ b/leptos-mview-core/src/lib.rs
@@ -13,10 +13,10 @@ mod parse;
 mod span;
 
 use ast::Child;
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Delimiter, Group, Span, TokenStream};
 use proc_macro_error2::abort;
-use quote::quote;
-use syn::spanned::Spanned;
+use quote::{quote, ToTokens};
+use syn::{parse::Parser, spanned::Spanned};
 
 use crate::{ast::Children, expand::children_fragment_tokens};
 
@@ -26,7 +26,7 @@ pub fn mview_impl(input: TokenStream) -> TokenStream {
     // invocation" e.g. when assigning `let res = mview! { ... };`
     proc_macro_error2::set_dummy(quote! { () });
 
-    let children = match syn::parse2::<Children>(input) {
+    let children = match parse_children(input) {
         Ok(tree) => tree,
         Err(e) => return e.to_compile_error(),
     };
@@ -63,3 +63,21 @@ pub fn mview_impl(input: TokenStream) -> TokenStream {
         }
     }
 }
+
+/// Parses the whole input as children.
+///
+/// If the input ends too early, the error is placed at the last token instead
+/// of the call site.
+fn parse_children(input: TokenStream) -> syn::Result<Children> {
+    let Some(last) = input.clone().into_iter().last() else {
+        return syn::parse2(input);
+    };
+    // `syn` places these errors at the end of the surrounding group
+    let mut group = Group::new(Delimiter::Brace, input);
+    group.set_span(last.span());
+
+    Parser::parse2(
+        |input: syn::parse::ParseStream| Ok(parse::braced(input)?.1),
+        group.into_token_stream(),
+    )
+}
-- 
2.43.0


From 8e31a682983e1f46efc02992eecc9c2ac9d6afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 15/23] fix: point type errors of class: and style: at the
 value, not at the call site

---
 leptos-mview-core/src/expand/subroutines.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index a5a84ef..a431786 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -193,7 +193,10 @@ pub(super) fn xml_directive_tokens(directive: &Directive) -> TokenStream {
         "class" | "style" => {
             let key = key.to_lit_str();
             emit_error_if_modifier(modifier.as_ref());
-            quote! { .#dir((#key, #value)) }
+            // spanned so that type errors are not at the call site
+            let span = value.as_ref().map_or_else(|| dir.span(), Value::span);
+            let pair = quote_spanned! { span=> (#key, #value) };
+            quote! { .#dir(#pair) }
         }
         "prop" => {
             let key = key.to_lit_str();
@@ -403,8 +406,11 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
             // to avoid spanning the directive to the module
             let dir_unspanned = syn::Ident::new(&dir.to_string(), Span::call_site());
+            // spanned so that type errors are not at the call site
+            let span = directive.value.as_ref().map_or_else(|| dir.span(), Value::span);
+            let pair = quote_spanned! { span=> (#key, #value) };
             quote! {
-                ::leptos::tachys::html::#dir_unspanned::#dir((#key, #value))
+                ::leptos::tachys::html::#dir_unspanned::#dir(#pair)
             }
         }
         "attr" => {
-- 
2.43.0


From d5a9416f0cc55e5f951b73b3699793593389f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 16/23] fix: report on: without a value on components as an
 error of the macro

---
 leptos-mview-core/src/expand/subroutines.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index a431786..a214ba9 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -451,7 +451,11 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
         }
         "on" => {
             let event_path = event_listener_event_path(directive);
-            let value = &directive.value;
+            // the missing argument would be reported at the call site
+            let Some(value) = &directive.value else {
+                emit_error!(dir.span(), "`on:` requires a value");
+                return Some(quote! { () });
+            };
             quote! {
                 ::leptos::tachys::html::event::on(#event_path, #value)
             }
-- 
2.43.0


From 54ec8dc5afa62ea5fd984d826c1a90605561dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 17/23] fix: point type errors of repeated slots at the slot,
 not at the call site

---
 leptos-mview-core/src/expand.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index f830a65..36fbfca 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -406,11 +406,13 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
                     .#method(#(#slot_tokens)*)
                 }
             } else {
-                quote! {
-                    .#method(<[_]>::into_vec(::std::boxed::Box::new([
+                // spanned so that type errors are not at the call site
+                let slots = quote_spanned! { slot_name.span()=>
+                    <[_]>::into_vec(::std::boxed::Box::new([
                         #(#slot_tokens),*
-                    ])))
-                }
+                    ]))
+                };
+                quote! { .#method(#slots) }
             }
         })
         .collect()
-- 
2.43.0


From efa1a61b12f3075c691ceb39588063b78bb319bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 18/23] fix: point errors about attributes spread to components
 at them, not at the call site

---
 leptos-mview-core/src/expand.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 36fbfca..dcb2296 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -316,6 +316,13 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
             path.span()=> ::leptos::component::component_props_builder(&#path)
         };
 
+        // spanned for the same reason
+        let add_any_attr = quote_spanned! { path.span()=>
+            .add_any_attr((
+                #(#directive_paths,)*
+            ))
+        };
+
         Some(quote! {
             // the .build() returns `!` if not all props are present.
             // this causes unreachable code warning in ::leptos::component_view
@@ -329,9 +336,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
                         #slot_children
                         #build
                 )
-                .add_any_attr((
-                    #(#directive_paths,)*
-                ))
+                #add_any_attr
             )
         })
     }
-- 
2.43.0


From 39a0bade8d0b1fadd0020f323f663f1f5931a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 19/23] fix: point type errors of attributes without a value at
 them, not at the call site

---
 leptos-mview-core/src/ast/attribute/kv.rs   |  2 +-
 leptos-mview-core/src/ast/value.rs          |  5 ++---
 leptos-mview-core/src/expand/subroutines.rs | 10 +++++-----
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/leptos-mview-core/src/ast/attribute/kv.rs b/leptos-mview-core/src/ast/attribute/kv.rs
index d3bb109..2e8336a 100644
--- a/leptos-mview-core/src/ast/attribute/kv.rs
+++ b/leptos-mview-core/src/ast/attribute/kv.rs
@@ -52,7 +52,7 @@ impl Parse for KvAttr {
                 let value = Value::parse_or_emit_err(input, eq.span);
                 (ident, value)
             } else {
-                let value = Value::new_true();
+                let value = Value::new_true(ident.span());
                 (ident, value)
             }
         };
diff --git a/leptos-mview-core/src/ast/value.rs b/leptos-mview-core/src/ast/value.rs
index 422b25e..0de3e8d 100644
--- a/leptos-mview-core/src/ast/value.rs
+++ b/leptos-mview-core/src/ast/value.rs
@@ -4,7 +4,6 @@ use quote::{quote, quote_spanned, ToTokens};
 use syn::{
     ext::IdentExt,
     parse::{Parse, ParseStream},
-    parse_quote,
     spanned::Spanned,
 };
 
@@ -150,8 +149,8 @@ impl Value {
         }
     }
 
-    /// Constructs self as a literal `true` with no span.
-    pub fn new_true() -> Self { Self::Lit(parse_quote!(true)) }
+    /// Constructs self as a literal `true` with the given span.
+    pub fn new_true(span: Span) -> Self { Self::Lit(syn::LitBool::new(true, span).into()) }
 }
 
 #[cfg(test)]
diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index a214ba9..56cd4ed 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -403,7 +403,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
         "class" | "style" => {
             // avoid making it string coloured
             let key = directive.key.to_unspanned_string();
-            let value = directive.value.clone().unwrap_or_else(Value::new_true);
+            let value = directive.value.clone().unwrap_or_else(|| Value::new_true(dir.span()));
             // to avoid spanning the directive to the module
             let dir_unspanned = syn::Ident::new(&dir.to_string(), Span::call_site());
             // spanned so that type errors are not at the call site
@@ -418,7 +418,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             match attr_kind {
                 AttributeKind::Class | AttributeKind::Style => {
                     let class_or_style = directive.key.to_ident_or_emit();
-                    let value = directive.value.clone().unwrap_or_else(Value::new_true);
+                    let value = directive.value.clone().unwrap_or_else(|| Value::new_true(dir.span()));
                     // to avoid spanning to the module name
                     let class_or_style_unspanned =
                         syn::Ident::new(&class_or_style.unraw().to_string(), Span::call_site());
@@ -428,14 +428,14 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
                 }
                 AttributeKind::Custom => {
                     let attr_name = directive.key.to_unspanned_string();
-                    let value = directive.value.clone().unwrap_or_else(Value::new_true);
+                    let value = directive.value.clone().unwrap_or_else(|| Value::new_true(dir.span()));
                     quote! {
                         ::leptos::tachys::html::attribute::custom::custom_attribute(#attr_name, #value)
                     }
                 }
                 AttributeKind::OtherChecked => {
                     let attr_name = directive.key.to_ident_or_emit();
-                    let value = directive.value.clone().unwrap_or_else(Value::new_true);
+                    let value = directive.value.clone().unwrap_or_else(|| Value::new_true(dir.span()));
                     quote! {
                         ::leptos::tachys::html::attribute::#attr_name(#value)
                     }
@@ -444,7 +444,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
         }
         "prop" => {
             let key = directive.key.to_unspanned_string();
-            let value = directive.value.clone().unwrap_or_else(Value::new_true);
+            let value = directive.value.clone().unwrap_or_else(|| Value::new_true(dir.span()));
             quote! {
                 ::leptos::tachys::html::property::#dir(#key, #value)
             }
-- 
2.43.0


From 07d967479e07d6bf22e48ac8eb750fd37801c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 20/23] fix: point errors about event handlers of components at
 them, not at the call site

---
 leptos-mview-core/src/expand/subroutines.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 56cd4ed..b097479 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -456,7 +456,8 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
                 emit_error!(dir.span(), "`on:` requires a value");
                 return Some(quote! { () });
             };
-            quote! {
+            // spanned so that errors about the handler are not at the call site
+            quote_spanned! { dir.span()=>
                 ::leptos::tachys::html::event::on(#event_path, #value)
             }
         }
-- 
2.43.0


From 14c7404c612247de83322b39bab080562741afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 21/23] fix: call Into by its path for use: directives without
 a value

`().into()` was ambiguous wherever another trait with an `into` method
is in scope.
---
 leptos-mview-core/src/expand/subroutines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index b097479..5533d53 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -41,7 +41,7 @@ pub(super) fn use_directive_fn_value(u: &Directive) -> (syn::Ident, TokenStream)
     emit_error_if_modifier(modifier.as_ref());
 
     let value = value.as_ref().map_or_else(
-        || quote_spanned! {directive_fn.span()=> ().into() },
+        || quote_spanned! {directive_fn.span()=> ::std::convert::Into::into(()) },
         |val| quote! { ::std::convert::Into::into(#val) },
     );
     (directive_fn, value)
-- 
2.43.0


From f503b0837ce23b12ff74deff1cee96d31ad7dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:58 +0000
Subject: [PATCH 22/23] fix: do not declare a variable to colour selectors

`let __x = ()` does not compile wherever a constant, static or unit
struct of that name is in scope. A label clashes with nothing.
---
 leptos-mview-core/src/ast/ident.rs |  2 +-
 leptos-mview-core/src/span.rs      | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/leptos-mview-core/src/ast/ident.rs b/leptos-mview-core/src/ast/ident.rs
index 0a05191..ba381f1 100644
--- a/leptos-mview-core/src/ast/ident.rs
+++ b/leptos-mview-core/src/ast/ident.rs
@@ -72,7 +72,7 @@ impl KebabIdent {
     pub fn to_lit_str(&self) -> syn::LitStr { syn::LitStr::new(self.repr(), self.span()) }
 
     /// Expands this ident to its string literal, along with dummy items to make
-    /// each segment the same color as a variable.
+    /// each segment the same color as a label.
     ///
     /// **NOTE:** The string itself won't be spanned to this [`KebabIdent`].
     /// Make sure that where this is used will always take a string and never
diff --git a/leptos-mview-core/src/span.rs b/leptos-mview-core/src/span.rs
index 6def6d6..a4ad392 100644
--- a/leptos-mview-core/src/span.rs
+++ b/leptos-mview-core/src/span.rs
@@ -10,14 +10,15 @@ use quote::quote;
 /// are in different files.
 pub fn join(s1: Span, s2: Span) -> Span { s1.join(s2).unwrap_or(s1) }
 
-/// Gives each span of `spans` the color of a variable.
+/// Gives each span of `spans` the color of a label.
 ///
 /// Returns an iterator of [`TokenStream`]s that need to be expanded to
-/// somewhere in the macro. Each [`TokenStream`] contains `let _ = ();`, so
-/// putting it in a block is the easiest way.
+/// somewhere in the macro. Each [`TokenStream`] contains `'__x: {}`, so
+/// putting it in a block is the easiest way. A label is used instead of a
+/// variable, as a variable clashes with any constant of its name.
 pub fn color_all(spans: impl IntoIterator<Item = Span>) -> impl Iterator<Item = TokenStream> {
     spans.into_iter().map(|span| {
-        let ident = syn::Ident::new("__x", span);
-        quote! { let #ident = (); }
+        let label = syn::Lifetime::new("'__x", span);
+        quote! { #label: {} }
     })
 }
-- 
2.43.0


From f817f181cbba06330ce20424460a571df597b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:03 +0000
Subject: [PATCH 23/23] fix: more than 26 directives on a component did not
 compile

---
 leptos-mview-core/src/expand.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index dcb2296..b8b8058 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -316,6 +316,15 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
             path.span()=> ::leptos::component::component_props_builder(&#path)
         };
 
+        // like the view traits, attributes are only implemented on tuples of up to 26
+        // items, but they can be nested.
+        while directive_paths.len() > MAX_TUPLE_LEN {
+            directive_paths = directive_paths
+                .chunks(MAX_TUPLE_LEN)
+                .map(|chunk| quote_spanned! { path.span()=> ( #( #chunk, )* ) })
+                .collect();
+        }
+
         // spanned for the same reason
         let add_any_attr = quote_spanned! { path.span()=>
             .add_any_attr((
-- 
2.43.0

