From 23c89ae2e5208a9a1f186758436fbaf4ec40bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:19 +0000
Subject: [PATCH 01/18] Add cfg(thiserror_verif) hook: derive entry point
 callable in-process

---
 impl/src/lib.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index 7f3767e..2f8537c 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -13,7 +13,8 @@
     clippy::single_match_else,
     clippy::struct_field_names,
     clippy::too_many_lines,
-    clippy::wrong_self_convention
+    clippy::wrong_self_convention,
+    unexpected_cfgs
 )]
 
 extern crate proc_macro;
@@ -29,10 +30,30 @@ mod scan_expr;
 mod unraw;
 mod valid;
 
+#[cfg(not(thiserror_verif))]
 use proc_macro::TokenStream;
-use syn::{parse_macro_input, DeriveInput};
+#[cfg(thiserror_verif)]
+use proc_macro2::TokenStream;
+#[cfg(not(thiserror_verif))]
+use syn::parse_macro_input;
+use syn::DeriveInput;
 
-#[proc_macro_derive(Error, attributes(backtrace, error, from, source))]
+// Verification hook: with cfg(thiserror_verif) this file builds as an ordinary
+// library whose derive_error can be called outside of a compiler.
+#[cfg(thiserror_verif)]
+macro_rules! parse_macro_input {
+    ($input:ident as $ty:ty) => {
+        match syn::parse2::<$ty>($input) {
+            Ok(parsed) => parsed,
+            Err(error) => return error.to_compile_error(),
+        }
+    };
+}
+
+#[cfg_attr(
+    not(thiserror_verif),
+    proc_macro_derive(Error, attributes(backtrace, error, from, source))
+)]
 pub fn derive_error(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
     expand::derive(&input).into()
-- 
2.43.0


From d6ae93dbca68c2f3eaf7eed0db1705eedbf52263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:30 +0000
Subject: [PATCH 02/18] fix: Ignore whitespace before the closing brace when
 reading a placeholder's trait

---
 impl/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 1da28c1..438a002 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -90,7 +90,7 @@ impl Display<'_> {
                 None => return Ok(()),
             };
             let mut bonus_display = false;
-            let bound = match read[..end_spec].chars().next_back() {
+            let bound = match read[..end_spec].trim_end().chars().next_back() {
                 Some('?') => Trait::Debug,
                 Some('o') => Trait::Octal,
                 Some('x') => Trait::LowerHex,
-- 
2.43.0


From 63c14f59a39a60597507b014088a0ea01b930b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:30 +0000
Subject: [PATCH 03/18] fix: Recognize '}' as a fill character in a placeholder

---
 impl/src/fmt.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 438a002..3262a44 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -85,8 +85,9 @@ impl Display<'_> {
                 }
                 _ => continue,
             };
-            let end_spec = match read.find('}') {
-                Some(end_spec) => end_spec,
+            let fill = fill_len(read);
+            let end_spec = match read[fill..].find('}') {
+                Some(end_spec) => fill + end_spec,
                 None => return Ok(()),
             };
             let mut bonus_display = false;
@@ -295,6 +296,16 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     ident
 }
 
+// Length of the ':' and fill character at the start of a format spec, if there is
+// an explicit fill, which may be any character including '}'.
+fn fill_len(read: &str) -> usize {
+    let mut chars = read.chars();
+    match (chars.next(), chars.next(), chars.next()) {
+        (Some(':'), Some(fill), Some('<' | '^' | '>')) => 1 + fill.len_utf8(),
+        _ => 0,
+    }
+}
+
 fn between<'a>(begin: ParseStream<'a>, end: ParseStream<'a>) -> TokenStream {
     let end = end.cursor();
     let mut cursor = begin.cursor();
-- 
2.43.0


From 2f74464ac95399fd1a962a9d2ef31c34fe0d40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 04/18] fix: Support non-ASCII identifiers in placeholders

---
 impl/src/fmt.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 3262a44..5bbbac1 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -65,12 +65,12 @@ impl Display<'_> {
                         Err(_) => return Ok(()),
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' => {
+                'a'..='z' | 'A'..='Z' | '_' | '\u{80}'.. => {
                     if read.starts_with("r#") {
                         continue;
                     }
                     let repr = take_ident(&mut read);
-                    if repr == "_" {
+                    if repr == "_" || Ident::parse_any.parse_str(repr).is_err() {
                         // Invalid. Let rustc produce the diagnostic.
                         out += repr;
                         continue;
@@ -288,6 +288,7 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     for ch in read.chars() {
         match ch {
             'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => ident_len += 1,
+            '\u{80}'.. if !ch.is_whitespace() => ident_len += ch.len_utf8(),
             _ => break,
         }
     }
-- 
2.43.0


From ddbebca3e5719b55f8039ab2d09b49bccb2f950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 05/18] fix: Recognize field references after ':' in format
 arguments

---
 impl/src/attr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 7ad83e0..c5dbfc5 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -260,6 +260,7 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             || input.peek(Token![!])
             || input.peek(Token![^])
             || input.peek(Token![,])
+            || input.peek(Token![:])
             || input.peek(Token![/])
             || input.peek(Token![=])
             || input.peek(Token![>])
-- 
2.43.0


From 6009f775650a098beda46c50aa63adbe3c1679b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 06/18] fix: Recognize field references after '..' in format
 arguments

---
 impl/src/attr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index c5dbfc5..1c6a7f6 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -247,6 +247,14 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             }
         }
 
+        if input.peek(Token![..]) {
+            // Range operator. Keep the original spacing because of `..=`.
+            tokens.push(input.parse()?);
+            tokens.push(input.parse()?);
+            begin_expr = true;
+            continue;
+        }
+
         begin_expr = input.peek(Token![break])
             || input.peek(Token![continue])
             || input.peek(Token![if])
-- 
2.43.0


From e979324bd1e9588e0dce7b74e38dc1c883b2dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 07/18] fix: See through the invisible group around a field
 type from a macro fragment

---
 impl/src/ast.rs      | 10 +++++++++-
 impl/src/generics.rs |  4 +++-
 impl/src/valid.rs    |  1 +
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/impl/src/ast.rs b/impl/src/ast.rs
index 77f9583..c7ff883 100644
--- a/impl/src/ast.rs
+++ b/impl/src/ast.rs
@@ -147,12 +147,20 @@ impl<'a> Field<'a> {
                     span: Span::call_site(),
                 }),
             },
-            ty: &node.ty,
+            ty: ungroup(&node.ty),
             contains_generic: scope.intersects(&node.ty),
         })
     }
 }
 
+// A type passed into a macro_rules macro as a $fragment arrives in an invisible group.
+fn ungroup(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+    ty
+}
+
 impl ContainerKind {
     fn from_struct(node: &DataStruct) -> Self {
         match node.fields {
diff --git a/impl/src/generics.rs b/impl/src/generics.rs
index 26fe0a9..54d7a54 100644
--- a/impl/src/generics.rs
+++ b/impl/src/generics.rs
@@ -24,7 +24,9 @@ impl<'a> ParamsInScope<'a> {
 }
 
 fn crawl(in_scope: &ParamsInScope, ty: &Type, found: &mut bool) {
-    if let Type::Path(ty) = ty {
+    if let Type::Group(ty) = ty {
+        crawl(in_scope, &ty.elem, found);
+    } else if let Type::Path(ty) = ty {
         if let Some(qself) = &ty.qself {
             crawl(in_scope, &qself.ty, found);
         } else {
diff --git a/impl/src/valid.rs b/impl/src/valid.rs
index 21bd885..4f026cf 100644
--- a/impl/src/valid.rs
+++ b/impl/src/valid.rs
@@ -243,6 +243,7 @@ fn contains_non_static_lifetime(ty: &Type) -> bool {
             .lifetime
             .as_ref()
             .map_or(false, |lifetime| lifetime.ident != "static"),
+        Type::Group(ty) => contains_non_static_lifetime(&ty.elem),
         _ => false, // maybe implement later if there are common other cases
     }
 }
-- 
2.43.0


From c77dca1c8ed1cfa64d545558508ae086a31760de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 08/18] fix: Emit a single where clause in the fallback Error
 impl

---
 impl/src/fallback.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impl/src/fallback.rs b/impl/src/fallback.rs
index e9c429b..6a20591 100644
--- a/impl/src/fallback.rs
+++ b/impl/src/fallback.rs
@@ -7,6 +7,8 @@ pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
     let ty = call_site_ident(&input.ident);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
+    let predicates = where_clause.iter().flat_map(|clause| &clause.predicates);
+
     let error = error.to_compile_error();
 
     quote! {
@@ -14,8 +16,9 @@ pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #where_clause
+        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics
         where
+            #(#predicates,)*
             // Work around trivial bounds being unstable.
             // https://github.com/rust-lang/rust/issues/48214
             for<'workaround> #ty #ty_generics: ::core::fmt::Debug,
-- 
2.43.0


From 88a8df17b7c0a576ec78d210f6bfa9733d97a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 09/18] fix: Expand a message that displays self to well-formed
 Rust in enum variants

---
 impl/src/expand.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index c693921..fabb08d 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -389,7 +389,12 @@ fn impl_enum(input: Enum) -> TokenStream {
             let mut display_implied_bounds = Set::new();
             let display = if let Some(display) = &variant.attrs.display {
                 display_implied_bounds.clone_from(&display.implied_bounds);
-                display.to_token_stream()
+                if display.infinite_recursive {
+                    // Contains an item, which needs a block in a match arm.
+                    quote!({ #display })
+                } else {
+                    display.to_token_stream()
+                }
             } else if let Some(fmt) = &variant.attrs.fmt {
                 let fmt_path = &fmt.path;
                 let vars = variant.fields.iter().map(|field| match &field.member {
-- 
2.43.0


From 425a7f35bdd4d78316800504a6222e719e7731a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:07 +0000
Subject: [PATCH 10/18] fix: Keep a field named gen raw in the expansion

Edition 2024 reserves gen, so the un-rawed name is not an identifier there,
while Syn accepts it as one.
---
 impl/src/unraw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impl/src/unraw.rs b/impl/src/unraw.rs
index 73b9970..5aed5ce 100644
--- a/impl/src/unraw.rs
+++ b/impl/src/unraw.rs
@@ -19,7 +19,8 @@ impl IdentUnraw {
     pub fn to_local(&self) -> Ident {
         let unraw = self.0.unraw();
         let repr = unraw.to_string();
-        if syn::parse_str::<Ident>(&repr).is_err() {
+        // Edition 2024 reserves `gen`, which Syn accepts as an ordinary identifier.
+        if repr == "gen" || syn::parse_str::<Ident>(&repr).is_err() {
             if let "_" | "super" | "self" | "Self" | "crate" = repr.as_str() {
                 // Some identifiers are never allowed to appear as raw, like r#self and r#_.
             } else {
-- 
2.43.0


From 06528621c9c7fda120db4077d4bb6120cef7c7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 11/18] fix: Resolve self in source and provide with the
 hygiene of the method

The tokens were spanned like the field name or attribute, so a derive inside
a macro_rules macro that receives those from its caller did not compile.
---
 impl/src/expand.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index fabb08d..2f5f61c 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -38,8 +38,9 @@ fn impl_struct(input: Struct) -> TokenStream {
             error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
         }
         let member = &only_field.member;
+        let this = self_ident(transparent_attr.span);
         Some(quote_spanned! {transparent_attr.span=>
-            ::thiserror::__private::Error::source(self.#member.as_dyn_error())
+            ::thiserror::__private::Error::source(#this.#member.as_dyn_error())
         })
     } else if let Some(source_field) = input.source_field() {
         let source = &source_field.member;
@@ -52,8 +53,9 @@ fn impl_struct(input: Struct) -> TokenStream {
         } else {
             None
         };
+        let this = self_ident(source_field.source_span());
         let dyn_error = quote_spanned! {source_field.source_span()=>
-            self.#source #asref.as_dyn_error()
+            #this.#source #asref.as_dyn_error()
         };
         Some(quote! {
             ::core::option::Option::Some(#dyn_error)
@@ -75,15 +77,16 @@ fn impl_struct(input: Struct) -> TokenStream {
         let backtrace = &backtrace_field.member;
         let body = if let Some(source_field) = input.source_field() {
             let source = &source_field.member;
+            let this = self_ident(source.span());
             let source_provide = if type_is_option(source_field.ty) {
                 quote_spanned! {source.span()=>
-                    if let ::core::option::Option::Some(source) = &self.#source {
+                    if let ::core::option::Option::Some(source) = &#this.#source {
                         source.thiserror_provide(#request);
                     }
                 }
             } else {
                 quote_spanned! {source.span()=>
-                    self.#source.thiserror_provide(#request);
+                    #this.#source.thiserror_provide(#request);
                 }
             };
             let self_provide = if source == backtrace {
@@ -224,11 +227,12 @@ fn impl_enum(input: Enum) -> TokenStream {
                     error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
                 }
                 let member = &only_field.member;
+                let vartransparent = quote!(transparent);
                 let source = quote_spanned! {transparent_attr.span=>
-                    ::thiserror::__private::Error::source(transparent.as_dyn_error())
+                    ::thiserror::__private::Error::source(#vartransparent.as_dyn_error())
                 };
                 quote! {
-                    #ty::#ident {#member: transparent} => #source,
+                    #ty::#ident {#member: #vartransparent} => #source,
                 }
             } else if let Some(source_field) = variant.source_field() {
                 let source = &source_field.member;
@@ -498,6 +502,13 @@ pub(crate) fn call_site_ident(ident: &Ident) -> Ident {
     ident
 }
 
+// The receiver, at the location of the given span but with the hygiene of the
+// method it belongs to. A field name or attribute may come from elsewhere if it
+// is passed into a macro.
+fn self_ident(span: Span) -> Ident {
+    Ident::new("self", span.resolved_at(Span::call_site()))
+}
+
 fn fields_pat(fields: &[Field]) -> TokenStream {
     let mut members = fields.iter().map(|field| &field.member).peekable();
     match members.peek() {
-- 
2.43.0


From 233322cd6ba674626a12350c47ad1e82ee4c8b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 12/18] fix: Resolve field references in format arguments with
 the field's hygiene

A leading-dot reference did not find its field when only one of the two was
passed into the macro_rules macro the derive is in.
---
 impl/src/attr.rs | 30 +++++++++++++++++++++++-------
 impl/src/fmt.rs  |  9 ++++++---
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 1c6a7f6..ddca1b4 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -1,3 +1,5 @@
+use crate::ast::Field;
+use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::collections::BTreeSet as Set;
@@ -167,7 +169,7 @@ fn parse_error_attribute<'a>(attrs: &mut Attrs<'a>, attr: &'a Attribute) -> Resu
             input.parse::<Option<Token![,]>>()?;
             TokenStream::new()
         } else {
-            parse_token_expr(input, false)?
+            input.parse()?
         };
 
         let requires_fmt_machinery = !args.is_empty();
@@ -193,7 +195,11 @@ fn parse_error_attribute<'a>(attrs: &mut Attrs<'a>, attr: &'a Attribute) -> Resu
     })
 }
 
-fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStream> {
+pub fn parse_token_expr(
+    input: ParseStream,
+    mut begin_expr: bool,
+    fields: &[Field],
+) -> Result<TokenStream> {
     let mut tokens = Vec::new();
     while !input.is_empty() {
         if input.peek(token::Group) {
@@ -206,13 +212,22 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
         if begin_expr && input.peek(Token![.]) {
             if input.peek2(Ident) {
                 input.parse::<Token![.]>()?;
+                let mut ident: Ident = input.parse()?;
+                // The field's name and this reference to it do not have the
+                // same hygiene if either one is passed into a macro.
+                let member = MemberUnraw::Named(IdentUnraw::new(ident.clone()));
+                if let Some(field) = fields.iter().find(|field| field.member == member) {
+                    ident.set_span(ident.span().resolved_at(field.member.span()));
+                }
+                tokens.push(TokenTree::Ident(ident));
                 begin_expr = false;
                 continue;
             } else if input.peek2(LitInt) {
                 input.parse::<Token![.]>()?;
                 let int: Index = input.parse()?;
                 tokens.push({
-                    let ident = format_ident!("_{}", int.index, span = int.span);
+                    let span = int.span.resolved_at(Span::call_site());
+                    let ident = format_ident!("_{}", int.index, span = span);
                     TokenTree::Ident(ident)
                 });
                 begin_expr = false;
@@ -228,7 +243,8 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
                 {
                     input.advance_to(&ahead);
                     tokens.push({
-                        let ident = format_ident!("_{}", first, span = float.span());
+                        let span = float.span().resolved_at(Span::call_site());
+                        let ident = format_ident!("_{}", first, span = span);
                         TokenTree::Ident(ident)
                     });
                     tokens.push({
@@ -282,21 +298,21 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
         let token: TokenTree = if input.peek(token::Paren) {
             let content;
             let delimiter = parenthesized!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, true, fields)?;
             let mut group = Group::new(Delimiter::Parenthesis, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
         } else if input.peek(token::Brace) {
             let content;
             let delimiter = braced!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, true, fields)?;
             let mut group = Group::new(Delimiter::Brace, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
         } else if input.peek(token::Bracket) {
             let content;
             let delimiter = bracketed!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, true, fields)?;
             let mut group = Group::new(Delimiter::Bracket, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 5bbbac1..66578a0 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -1,11 +1,11 @@
 use crate::ast::{ContainerKind, Field};
-use crate::attr::{Display, Trait};
+use crate::attr::{parse_token_expr, Display, Trait};
 use crate::scan_expr::scan_expr;
 use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned, ToTokens as _};
 use std::collections::{BTreeSet, HashMap};
-use std::iter;
+use std::{iter, mem};
 use syn::ext::IdentExt;
 use syn::parse::discouraged::Speculative;
 use syn::parse::{Error, ParseStream, Parser, Result};
@@ -13,7 +13,10 @@ use syn::{Expr, Ident, Index, LitStr, Token};
 
 impl Display<'_> {
     pub fn expand_shorthand(&mut self, fields: &[Field], container: ContainerKind) -> Result<()> {
-        let raw_args = self.args.clone();
+        let raw_args = mem::take(&mut self.args);
+        let raw_args =
+            (|input: ParseStream| parse_token_expr(input, false, fields)).parse2(raw_args)?;
+        self.args = raw_args.clone();
         let FmtArguments {
             named: user_named_args,
             first_unnamed,
-- 
2.43.0


From de5b9d41b63be3bab105bba5272c9a01648eac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 13/18] fix: Let a variant have a field with the name of its
 fmt function

The function's path was resolved where the variant's fields are in scope.
---
 impl/src/expand.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 2f5f61c..998b288 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -391,6 +391,7 @@ fn impl_enum(input: Enum) -> TokenStream {
         };
         let arms = input.variants.iter().map(|variant| {
             let mut display_implied_bounds = Set::new();
+            let mut pat = fields_pat(&variant.fields);
             let display = if let Some(display) = &variant.attrs.display {
                 display_implied_bounds.clone_from(&display.implied_bounds);
                 if display.infinite_recursive {
@@ -400,11 +401,13 @@ fn impl_enum(input: Enum) -> TokenStream {
                     display.to_token_stream()
                 }
             } else if let Some(fmt) = &variant.attrs.fmt {
+                // Do not let the function's name be shadowed by a field's.
                 let fmt_path = &fmt.path;
-                let vars = variant.fields.iter().map(|field| match &field.member {
-                    MemberUnraw::Named(ident) => ident.to_local(),
-                    MemberUnraw::Unnamed(index) => format_ident!("_{}", index),
-                });
+                let members = variant.fields.iter().map(|field| &field.member);
+                let vars = (0..variant.fields.len())
+                    .map(|i| format_ident!("_{}", i))
+                    .collect::<Vec<_>>();
+                pat = quote!({ #(#members: #vars),* });
                 quote!(#fmt_path(#(#vars,)* __formatter))
             } else {
                 let only_field = match &variant.fields[0].member {
@@ -421,7 +424,6 @@ fn impl_enum(input: Enum) -> TokenStream {
                 }
             }
             let ident = &variant.ident;
-            let pat = fields_pat(&variant.fields);
             quote! {
                 #ty::#ident #pat => #display
             }
-- 
2.43.0


From 41b878228dec1de2e92240beb3dffe5f50bd2452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 14/18] fix: Keep the hygiene of a raw field name

---
 impl/src/unraw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/unraw.rs b/impl/src/unraw.rs
index 5aed5ce..16831e9 100644
--- a/impl/src/unraw.rs
+++ b/impl/src/unraw.rs
@@ -24,7 +24,7 @@ impl IdentUnraw {
             if let "_" | "super" | "self" | "Self" | "crate" = repr.as_str() {
                 // Some identifiers are never allowed to appear as raw, like r#self and r#_.
             } else {
-                return Ident::new_raw(&repr, Span::call_site());
+                return Ident::new_raw(&repr, unraw.span());
             }
         }
         unraw
-- 
2.43.0


From b87d37d4a0c8629b1f8daefff3e10561bacd0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 15/18] fix: Name the locals of a message in snake case
 whatever the field's name

---
 impl/src/fmt.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 66578a0..ede46d9 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -126,12 +126,8 @@ impl Display<'_> {
             } else {
                 "__field"
             };
-            let mut formatvar = IdentUnraw::new(match &member {
-                MemberUnraw::Unnamed(index) => format_ident!("{}{}", formatvar_prefix, index),
-                MemberUnraw::Named(ident) => {
-                    format_ident!("{}_{}", formatvar_prefix, ident.to_string())
-                }
-            });
+            // By index, so that the local is in snake case whatever the field's name.
+            let mut formatvar = IdentUnraw::new(format_ident!("{}{}", formatvar_prefix, field));
             while user_named_args.contains(&formatvar) {
                 formatvar = IdentUnraw::new(format_ident!("_{}", formatvar.to_string()));
             }
-- 
2.43.0


From 0f8421c52567496efe5a8535c02a29c11f4c2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 16/18] fix: Allow deprecated types and traits in the bounds of
 the generated impls

---
 impl/src/expand.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 998b288..90c4b8d 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -154,8 +154,16 @@ fn impl_struct(input: Struct) -> TokenStream {
             }
         }
         let display_where_clause = display_inferred_bounds.augment_where_clause(input.generics);
+        // For deprecated types and traits among the bounds. The rest of the
+        // impl contains the caller's own expressions.
+        let allow_deprecated = if input.generics.params.is_empty() {
+            None
+        } else {
+            Some(quote!(#[allow(deprecated)]))
+        };
         quote! {
             #[allow(unused_qualifications)]
+            #allow_deprecated
             #[automatically_derived]
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
                 #[allow(clippy::used_underscore_binding)]
@@ -202,7 +210,7 @@ fn impl_struct(input: Struct) -> TokenStream {
     let error_where_clause = error_inferred_bounds.augment_where_clause(input.generics);
 
     quote! {
-        #[allow(unused_qualifications)]
+        #[allow(deprecated, unused_qualifications)]
         #[automatically_derived]
         impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {
             #source_method
@@ -431,7 +439,7 @@ fn impl_enum(input: Enum) -> TokenStream {
         let arms = arms.collect::<Vec<_>>();
         let display_where_clause = display_inferred_bounds.augment_where_clause(input.generics);
         Some(quote! {
-            #[allow(unused_qualifications)]
+            #[allow(deprecated, unused_qualifications)]
             #[automatically_derived]
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
                 fn fmt(&self, __formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
@@ -485,7 +493,7 @@ fn impl_enum(input: Enum) -> TokenStream {
     let error_where_clause = error_inferred_bounds.augment_where_clause(input.generics);
 
     quote! {
-        #[allow(unused_qualifications)]
+        #[allow(deprecated, unused_qualifications)]
         #[automatically_derived]
         impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {
             #source_method
-- 
2.43.0


From a7cc1055024ce89756900fc1c47a0990e9cad257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 17/18] fix: Resolve core in the From and provide impls with
 the hygiene of the derive

In a 2015 edition crate the path ::core resolves only if it has the span of
the derive, not that of the #[from] attribute or of the source field.
---
 impl/src/expand.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 90c4b8d..e1d3414 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -79,8 +79,9 @@ fn impl_struct(input: Struct) -> TokenStream {
             let source = &source_field.member;
             let this = self_ident(source.span());
             let source_provide = if type_is_option(source_field.ty) {
+                let some = quote!(::core::option::Option::Some);
                 quote_spanned! {source.span()=>
-                    if let ::core::option::Option::Some(source) = &#this.#source {
+                    if let #some(source) = &#this.#source {
                         source.thiserror_provide(#request);
                     }
                 }
@@ -185,9 +186,10 @@ fn impl_struct(input: Struct) -> TokenStream {
                 #ty #body
             }
         };
+        let from_trait = quote!(::core::convert::From<#from>);
         let from_impl = quote_spanned! {span=>
             #[automatically_derived]
-            impl #impl_generics ::core::convert::From<#from> for #ty #ty_generics #where_clause {
+            impl #impl_generics #from_trait for #ty #ty_generics #where_clause {
                 #from_function
             }
         };
@@ -291,8 +293,9 @@ fn impl_enum(input: Enum) -> TokenStream {
                     let source = &source_field.member;
                     let varsource = quote!(source);
                     let source_provide = if type_is_option(source_field.ty) {
+                        let some = quote!(::core::option::Option::Some);
                         quote_spanned! {source.span()=>
-                            if let ::core::option::Option::Some(source) = #varsource {
+                            if let #some(source) = #varsource {
                                 source.thiserror_provide(#request);
                             }
                         }
@@ -330,8 +333,9 @@ fn impl_enum(input: Enum) -> TokenStream {
                     let backtrace = &backtrace_field.member;
                     let varsource = quote!(source);
                     let source_provide = if type_is_option(source_field.ty) {
+                        let some = quote!(::core::option::Option::Some);
                         quote_spanned! {backtrace.span()=>
-                            if let ::core::option::Option::Some(source) = #varsource {
+                            if let #some(source) = #varsource {
                                 source.thiserror_provide(#request);
                             }
                         }
@@ -468,9 +472,10 @@ fn impl_enum(input: Enum) -> TokenStream {
                 #ty::#variant #body
             }
         };
+        let from_trait = quote!(::core::convert::From<#from>);
         let from_impl = quote_spanned! {span=>
             #[automatically_derived]
-            impl #impl_generics ::core::convert::From<#from> for #ty #ty_generics #where_clause {
+            impl #impl_generics #from_trait for #ty #ty_generics #where_clause {
                 #from_function
             }
         };
-- 
2.43.0


From 1f710b7412b4e4904121ea2983c6bb7e5dd2cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 18/18] fix: Support an enum variant's source field having a
 type named Backtrace

---
 impl/src/expand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index e1d3414..10856a9 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -287,7 +287,8 @@ fn impl_enum(input: Enum) -> TokenStream {
             let ident = &variant.ident;
             match (variant.backtrace_field(), variant.source_field()) {
                 (Some(backtrace_field), Some(source_field))
-                    if backtrace_field.attrs.backtrace.is_none() =>
+                    if backtrace_field.attrs.backtrace.is_none()
+                        && backtrace_field.member != source_field.member =>
                 {
                     let backtrace = &backtrace_field.member;
                     let source = &source_field.member;
-- 
2.43.0

