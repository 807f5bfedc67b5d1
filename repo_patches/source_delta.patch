From 8e49aa5e957993c3fe79c63ab13163ac6f28b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 01/14] fix: ignore trailing whitespace of a format placeholder
 when picking its trait

`{x:? }` is a Debug placeholder to format_args!, but the shorthand looked at
the whitespace and inferred a Display bound; `{path }` lost the Path display
adapter in the same way.
---
 impl/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 1da28c1..438a002 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -90,7 +90,7 @@ impl Display<'_> {
                 None => return Ok(()),
             };
             let mut bonus_display = false;
-            let bound = match read[..end_spec].chars().next_back() {
+            let bound = match read[..end_spec].trim_end().chars().next_back() {
                 Some('?') => Trait::Debug,
                 Some('o') => Trait::Octal,
                 Some('x') => Trait::LowerHex,
-- 
2.43.0


From 55181ff409845ede4bb4abe579dccea9549e51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:25 +0000
Subject: [PATCH 02/14] fix: see through invisible groups around types
 interpolated by macro_rules

---
 impl/src/expand.rs   |  4 ++--
 impl/src/generics.rs | 11 ++++++++++-
 impl/src/prop.rs     |  3 ++-
 impl/src/valid.rs    |  3 ++-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index c693921..20cd52c 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -1,7 +1,7 @@
 use crate::ast::{Enum, Field, Input, Struct};
 use crate::attr::Trait;
 use crate::fallback;
-use crate::generics::InferredBounds;
+use crate::generics::{ungroup, InferredBounds};
 use crate::unraw::MemberUnraw;
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
@@ -557,7 +557,7 @@ fn unoptional_type(ty: &Type) -> TokenStream {
 }
 
 fn type_parameter_of_option(ty: &Type) -> Option<&Type> {
-    let path = match ty {
+    let path = match ungroup(ty) {
         Type::Path(ty) => &ty.path,
         _ => return None,
     };
diff --git a/impl/src/generics.rs b/impl/src/generics.rs
index 26fe0a9..5235275 100644
--- a/impl/src/generics.rs
+++ b/impl/src/generics.rs
@@ -24,7 +24,7 @@ impl<'a> ParamsInScope<'a> {
 }
 
 fn crawl(in_scope: &ParamsInScope, ty: &Type, found: &mut bool) {
-    if let Type::Path(ty) = ty {
+    if let Type::Path(ty) = ungroup(ty) {
         if let Some(qself) = &ty.qself {
             crawl(in_scope, &qself.ty, found);
         } else {
@@ -45,6 +45,15 @@ fn crawl(in_scope: &ParamsInScope, ty: &Type, found: &mut bool) {
     }
 }
 
+// A type that was interpolated by a macro_rules macro as $t:ty is wrapped in an
+// invisible group.
+pub(crate) fn ungroup(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+    ty
+}
+
 pub struct InferredBounds {
     bounds: Map<String, (Set<String>, Punctuated<TokenStream, Token![+]>)>,
     order: Vec<TokenStream>,
diff --git a/impl/src/prop.rs b/impl/src/prop.rs
index 0a101fc..d279287 100644
--- a/impl/src/prop.rs
+++ b/impl/src/prop.rs
@@ -1,4 +1,5 @@
 use crate::ast::{Enum, Field, Struct, Variant};
+use crate::generics::ungroup;
 use crate::unraw::MemberUnraw;
 use proc_macro2::Span;
 use syn::Type;
@@ -138,7 +139,7 @@ fn distinct_backtrace_field<'a, 'b>(
 }
 
 fn type_is_backtrace(ty: &Type) -> bool {
-    let path = match ty {
+    let path = match ungroup(ty) {
         Type::Path(ty) => &ty.path,
         _ => return false,
     };
diff --git a/impl/src/valid.rs b/impl/src/valid.rs
index 21bd885..8a5dfa3 100644
--- a/impl/src/valid.rs
+++ b/impl/src/valid.rs
@@ -1,5 +1,6 @@
 use crate::ast::{Enum, Field, Input, Struct, Variant};
 use crate::attr::Attrs;
+use crate::generics::ungroup;
 use syn::{Error, GenericArgument, PathArguments, Result, Type};
 
 impl Input<'_> {
@@ -222,7 +223,7 @@ fn check_field_attrs(fields: &[Field]) -> Result<()> {
 }
 
 fn contains_non_static_lifetime(ty: &Type) -> bool {
-    match ty {
+    match ungroup(ty) {
         Type::Path(ty) => {
             let bracketed = match &ty.path.segments.last().unwrap().arguments {
                 PathArguments::AngleBracketed(bracketed) => bracketed,
-- 
2.43.0


From aa3a122adc764e0caf45786e95d3f32df81388fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 03/14] fix: recognize fields with non-ASCII names in format
 strings

---
 impl/src/fmt.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 438a002..36d8316 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -65,12 +65,12 @@ impl Display<'_> {
                         Err(_) => return Ok(()),
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' => {
+                _ if is_ident_char(next) => {
                     if read.starts_with("r#") {
                         continue;
                     }
                     let repr = take_ident(&mut read);
-                    if repr == "_" {
+                    if repr == "_" || !is_ident(repr) {
                         // Invalid. Let rustc produce the diagnostic.
                         out += repr;
                         continue;
@@ -286,7 +286,7 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     let mut ident_len = 0;
     for ch in read.chars() {
         match ch {
-            'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => ident_len += 1,
+            _ if is_ident_char(ch) => ident_len += ch.len_utf8(),
             _ => break,
         }
     }
@@ -295,6 +295,15 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     ident
 }
 
+fn is_ident_char(ch: char) -> bool {
+    ch == '_' || ch.is_ascii_alphanumeric() || !ch.is_ascii()
+}
+
+fn is_ident(repr: &str) -> bool {
+    // Of non-ASCII characters, only XID_Continue ones form an identifier.
+    repr.is_ascii() || Ident::parse_any.parse_str(repr).is_ok()
+}
+
 fn between<'a>(begin: ParseStream<'a>, end: ParseStream<'a>) -> TokenStream {
     let end = end.cursor();
     let mut cursor = begin.cursor();
-- 
2.43.0


From ea04d570f3ccfc3c716f49d5b95515a21f6646e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 04/14] fix: resolve `self` and bindings when fields or
 attributes come from another macro

---
 impl/src/expand.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 20cd52c..eed1d48 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -38,8 +38,9 @@ fn impl_struct(input: Struct) -> TokenStream {
             error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
         }
         let member = &only_field.member;
+        let this = quote!(self);
         Some(quote_spanned! {transparent_attr.span=>
-            ::thiserror::__private::Error::source(self.#member.as_dyn_error())
+            ::thiserror::__private::Error::source(#this.#member.as_dyn_error())
         })
     } else if let Some(source_field) = input.source_field() {
         let source = &source_field.member;
@@ -52,8 +53,9 @@ fn impl_struct(input: Struct) -> TokenStream {
         } else {
             None
         };
+        let this = quote!(self);
         let dyn_error = quote_spanned! {source_field.source_span()=>
-            self.#source #asref.as_dyn_error()
+            #this.#source #asref.as_dyn_error()
         };
         Some(quote! {
             ::core::option::Option::Some(#dyn_error)
@@ -75,15 +77,16 @@ fn impl_struct(input: Struct) -> TokenStream {
         let backtrace = &backtrace_field.member;
         let body = if let Some(source_field) = input.source_field() {
             let source = &source_field.member;
+            let this = quote!(self);
             let source_provide = if type_is_option(source_field.ty) {
                 quote_spanned! {source.span()=>
-                    if let ::core::option::Option::Some(source) = &self.#source {
+                    if let ::core::option::Option::Some(source) = &#this.#source {
                         source.thiserror_provide(#request);
                     }
                 }
             } else {
                 quote_spanned! {source.span()=>
-                    self.#source.thiserror_provide(#request);
+                    #this.#source.thiserror_provide(#request);
                 }
             };
             let self_provide = if source == backtrace {
@@ -224,11 +227,12 @@ fn impl_enum(input: Enum) -> TokenStream {
                     error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
                 }
                 let member = &only_field.member;
+                let vartransparent = quote!(transparent);
                 let source = quote_spanned! {transparent_attr.span=>
-                    ::thiserror::__private::Error::source(transparent.as_dyn_error())
+                    ::thiserror::__private::Error::source(#vartransparent.as_dyn_error())
                 };
                 quote! {
-                    #ty::#ident {#member: transparent} => #source,
+                    #ty::#ident {#member: #vartransparent} => #source,
                 }
             } else if let Some(source_field) = variant.source_field() {
                 let source = &source_field.member;
-- 
2.43.0


From b28cc312db9f255ad8dda071a8d28ba84858cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 05/14] fix: keep the span of a raw identifier when making a
 local of it

---
 impl/src/unraw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/unraw.rs b/impl/src/unraw.rs
index 73b9970..0841d4b 100644
--- a/impl/src/unraw.rs
+++ b/impl/src/unraw.rs
@@ -23,7 +23,7 @@ impl IdentUnraw {
             if let "_" | "super" | "self" | "Self" | "crate" = repr.as_str() {
                 // Some identifiers are never allowed to appear as raw, like r#self and r#_.
             } else {
-                return Ident::new_raw(&repr, Span::call_site());
+                return Ident::new_raw(&repr, self.0.span());
             }
         }
         unraw
-- 
2.43.0


From dc05e52a659384635a531c3037ce819cf2f7e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 06/14] fix: keep fallback impls parsable when the type has a
 where-clause

---
 impl/src/fallback.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/impl/src/fallback.rs b/impl/src/fallback.rs
index e9c429b..c9d45cf 100644
--- a/impl/src/fallback.rs
+++ b/impl/src/fallback.rs
@@ -1,12 +1,20 @@
 use crate::expand::call_site_ident;
 use proc_macro2::TokenStream;
 use quote::quote;
-use syn::DeriveInput;
+use syn::{parse_quote, DeriveInput};
 
 pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
     let ty = call_site_ident(&input.ident);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
+    let mut error_generics = input.generics.clone();
+    let error_where_clause = error_generics.make_where_clause();
+    // Work around trivial bounds being unstable.
+    // https://github.com/rust-lang/rust/issues/48214
+    error_where_clause
+        .predicates
+        .push(parse_quote!(for<'workaround> #ty #ty_generics: ::core::fmt::Debug));
+
     let error = error.to_compile_error();
 
     quote! {
@@ -14,12 +22,7 @@ pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #where_clause
-        where
-            // Work around trivial bounds being unstable.
-            // https://github.com/rust-lang/rust/issues/48214
-            for<'workaround> #ty #ty_generics: ::core::fmt::Debug,
-        {}
+        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {}
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-- 
2.43.0


From b20ee31a1d36ce3471f5581a4f734181522b122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 07/14] fix: do not warn about the case of bindings generated
 for underscored fields

---
 impl/src/expand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index eed1d48..e40a26a 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -158,7 +158,7 @@ fn impl_struct(input: Struct) -> TokenStream {
             #[allow(unused_qualifications)]
             #[automatically_derived]
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
-                #[allow(clippy::used_underscore_binding)]
+                #[allow(non_snake_case, clippy::used_underscore_binding)]
                 fn fmt(&self, __formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                     #body
                 }
@@ -429,7 +429,7 @@ fn impl_enum(input: Enum) -> TokenStream {
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
                 fn fmt(&self, __formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                     #use_as_display
-                    #[allow(unused_variables, deprecated, clippy::used_underscore_binding)]
+                    #[allow(non_snake_case, unused_variables, deprecated, clippy::used_underscore_binding)]
                     match #void_deref self {
                         #(#arms,)*
                     }
-- 
2.43.0


From 16eeb268d39a06821c90a51a1c47c3f3cbec6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:35 +0000
Subject: [PATCH 08/14] fix: accept messages of variants that print the error
 itself

---
 impl/src/attr.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 7ad83e0..836b379 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -301,14 +301,6 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
 
 impl ToTokens for Display<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
-        if self.infinite_recursive {
-            let span = self.fmt.span();
-            tokens.extend(quote_spanned! {span=>
-                #[warn(unconditional_recursion)]
-                fn _fmt() { _fmt() }
-            });
-        }
-
         let fmt = &self.fmt;
         let args = &self.args;
 
@@ -325,7 +317,7 @@ impl ToTokens for Display<'_> {
             }
         };
 
-        tokens.extend(if self.bindings.is_empty() {
+        let body = if self.bindings.is_empty() {
             write
         } else {
             let locals = self.bindings.iter().map(|(local, _value)| local);
@@ -335,6 +327,18 @@ impl ToTokens for Display<'_> {
                     (#(#locals,)*) => #write
                 }
             }
+        };
+
+        tokens.extend(if self.infinite_recursive {
+            let span = self.fmt.span();
+            let warning = quote_spanned! {span=>
+                #[warn(unconditional_recursion)]
+                fn _fmt() { _fmt() }
+            };
+            // Braces because this can be the body of a match arm.
+            quote!({ #warning #body })
+        } else {
+            body
         });
     }
 }
-- 
2.43.0


From fb69f38d8c35e6933f24055700fe9fc4426cfe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 09/14] fix: keep raw the identifier `r#gen`, which edition
 2024 reserves

---
 impl/src/unraw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impl/src/unraw.rs b/impl/src/unraw.rs
index 0841d4b..f183158 100644
--- a/impl/src/unraw.rs
+++ b/impl/src/unraw.rs
@@ -19,7 +19,8 @@ impl IdentUnraw {
     pub fn to_local(&self) -> Ident {
         let unraw = self.0.unraw();
         let repr = unraw.to_string();
-        if syn::parse_str::<Ident>(&repr).is_err() {
+        // Syn does not count `gen`, which is reserved in edition 2024 only.
+        if syn::parse_str::<Ident>(&repr).is_err() || repr == "gen" {
             if let "_" | "super" | "self" | "Self" | "crate" = repr.as_str() {
                 // Some identifiers are never allowed to appear as raw, like r#self and r#_.
             } else {
-- 
2.43.0


From 5a045720046fdef6e581f63aa6e5040807231436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 10/14] fix: a field may be called __formatter

The parameter of the generated fmt was shadowed by the binding of a field of
that name, and the impl did not compile.
---
 impl/src/attr.rs   | 11 +++++++++--
 impl/src/expand.rs | 14 ++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 836b379..0862d62 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -299,21 +299,28 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
     Ok(TokenStream::from_iter(tokens))
 }
 
+// The parameter of the generated `fmt`. Its span keeps it apart from a field of
+// the same name.
+pub fn formatter() -> Ident {
+    Ident::new("__formatter", Span::mixed_site())
+}
+
 impl ToTokens for Display<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let fmt = &self.fmt;
         let args = &self.args;
+        let formatter = formatter();
 
         // Currently `write!(f, "text")` produces less efficient code than
         // `f.write_str("text")`. We recognize the case when the format string
         // has no braces and no interpolated values, and generate simpler code.
         let write = if self.requires_fmt_machinery {
             quote! {
-                ::core::write!(__formatter, #fmt #args)
+                ::core::write!(#formatter, #fmt #args)
             }
         } else {
             quote! {
-                __formatter.write_str(#fmt)
+                #formatter.write_str(#fmt)
             }
         };
 
diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index e40a26a..803aa09 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -1,5 +1,5 @@
 use crate::ast::{Enum, Field, Input, Struct};
-use crate::attr::Trait;
+use crate::attr::{formatter, Trait};
 use crate::fallback;
 use crate::generics::{ungroup, InferredBounds};
 use crate::unraw::MemberUnraw;
@@ -125,12 +125,13 @@ fn impl_struct(input: Struct) -> TokenStream {
         }
     });
 
+    let formatter = formatter();
     let mut display_implied_bounds = Set::new();
     let display_body = if input.attrs.transparent.is_some() {
         let only_field = &input.fields[0].member;
         display_implied_bounds.insert((0, Trait::Display));
         Some(quote! {
-            ::core::fmt::Display::fmt(&self.#only_field, __formatter)
+            ::core::fmt::Display::fmt(&self.#only_field, #formatter)
         })
     } else if let Some(display) = &input.attrs.display {
         display_implied_bounds.clone_from(&display.implied_bounds);
@@ -159,7 +160,7 @@ fn impl_struct(input: Struct) -> TokenStream {
             #[automatically_derived]
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
                 #[allow(non_snake_case, clippy::used_underscore_binding)]
-                fn fmt(&self, __formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+                fn fmt(&self, #formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                     #body
                 }
             }
@@ -375,6 +376,7 @@ fn impl_enum(input: Enum) -> TokenStream {
         None
     };
 
+    let formatter = formatter();
     let display_impl = if input.has_display() {
         let mut display_inferred_bounds = InferredBounds::new();
         let has_bonus_display = input.variants.iter().any(|v| {
@@ -400,14 +402,14 @@ fn impl_enum(input: Enum) -> TokenStream {
                     MemberUnraw::Named(ident) => ident.to_local(),
                     MemberUnraw::Unnamed(index) => format_ident!("_{}", index),
                 });
-                quote!(#fmt_path(#(#vars,)* __formatter))
+                quote!(#fmt_path(#(#vars,)* #formatter))
             } else {
                 let only_field = match &variant.fields[0].member {
                     MemberUnraw::Named(ident) => ident.to_local(),
                     MemberUnraw::Unnamed(index) => format_ident!("_{}", index),
                 };
                 display_implied_bounds.insert((0, Trait::Display));
-                quote!(::core::fmt::Display::fmt(#only_field, __formatter))
+                quote!(::core::fmt::Display::fmt(#only_field, #formatter))
             };
             for (field, bound) in display_implied_bounds {
                 let field = &variant.fields[field];
@@ -427,7 +429,7 @@ fn impl_enum(input: Enum) -> TokenStream {
             #[allow(unused_qualifications)]
             #[automatically_derived]
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
-                fn fmt(&self, __formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+                fn fmt(&self, #formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                     #use_as_display
                     #[allow(non_snake_case, unused_variables, deprecated, clippy::used_underscore_binding)]
                     match #void_deref self {
-- 
2.43.0


From 0573c87bbd900702cffd41a77289ea7b7d7c6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 11/14] fix: arguments see the fields whose names a message
 binds

With a field called __display_x next to {x}, an argument .__display_x was the
binding made for {x}.
---
 impl/src/fmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 36d8316..35362cc 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -128,7 +128,9 @@ impl Display<'_> {
                     format_ident!("{}_{}", formatvar_prefix, ident.to_string())
                 }
             });
-            while user_named_args.contains(&formatvar) {
+            while user_named_args.contains(&formatvar)
+                || member_index.contains_key(&MemberUnraw::Named(formatvar.clone()))
+            {
                 formatvar = IdentUnraw::new(format_ident!("_{}", formatvar.to_string()));
             }
             formatvar.set_span(span);
-- 
2.43.0


From 9cac67b3f226ddae1b03fcd606c164904a6aa05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 12/14] fix: a field may be called like the function that
 formats its variant

---
 impl/src/expand.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 803aa09..9b9c0f8 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -393,15 +393,20 @@ fn impl_enum(input: Enum) -> TokenStream {
         };
         let arms = input.variants.iter().map(|variant| {
             let mut display_implied_bounds = Set::new();
+            let mut pat = fields_pat(&variant.fields);
             let display = if let Some(display) = &variant.attrs.display {
                 display_implied_bounds.clone_from(&display.implied_bounds);
                 display.to_token_stream()
             } else if let Some(fmt) = &variant.attrs.fmt {
                 let fmt_path = &fmt.path;
-                let vars = variant.fields.iter().map(|field| match &field.member {
-                    MemberUnraw::Named(ident) => ident.to_local(),
-                    MemberUnraw::Unnamed(index) => format_ident!("_{}", index),
+                let members = variant.fields.iter().map(|field| &field.member);
+                // Bindings that the path does not see, in case it is called like a field.
+                let vars = members.clone().enumerate().map(|(i, member)| {
+                    let span = member.span().resolved_at(Span::mixed_site());
+                    format_ident!("_{}", i, span = span)
                 });
+                let vars = vars.collect::<Vec<_>>();
+                pat = quote!({ #(#members: #vars),* });
                 quote!(#fmt_path(#(#vars,)* #formatter))
             } else {
                 let only_field = match &variant.fields[0].member {
@@ -418,7 +423,6 @@ fn impl_enum(input: Enum) -> TokenStream {
                 }
             }
             let ident = &variant.ident;
-            let pat = fields_pat(&variant.fields);
             quote! {
                 #ty::#ident #pat => #display
             }
-- 
2.43.0


From ce01419be380473f37caa4fcaf2a9379e15b6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 13/14] fix: a field shorthand finds its field across
 macro_rules hygiene

---
 impl/src/attr.rs | 33 ++++++++++++++++++++++++++-------
 impl/src/fmt.rs  |  4 +++-
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 0862d62..d8ad482 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -1,3 +1,5 @@
+use crate::ast::Field;
+use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::collections::BTreeSet as Set;
@@ -167,7 +169,8 @@ fn parse_error_attribute<'a>(attrs: &mut Attrs<'a>, attr: &'a Attribute) -> Resu
             input.parse::<Option<Token![,]>>()?;
             TokenStream::new()
         } else {
-            parse_token_expr(input, false)?
+            // Shorthands for fields in here are left to expand_shorthand.
+            input.parse()?
         };
 
         let requires_fmt_machinery = !args.is_empty();
@@ -193,7 +196,11 @@ fn parse_error_attribute<'a>(attrs: &mut Attrs<'a>, attr: &'a Attribute) -> Resu
     })
 }
 
-fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStream> {
+pub(crate) fn parse_token_expr(
+    input: ParseStream,
+    mut begin_expr: bool,
+    fields: &[Field],
+) -> Result<TokenStream> {
     let mut tokens = Vec::new();
     while !input.is_empty() {
         if input.peek(token::Group) {
@@ -206,13 +213,20 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
         if begin_expr && input.peek(Token![.]) {
             if input.peek2(Ident) {
                 input.parse::<Token![.]>()?;
+                let mut ident: Ident = input.parse()?;
+                let member = MemberUnraw::Named(IdentUnraw::new(ident.clone()));
+                if let Some(field) = fields.iter().find(|field| field.member == member) {
+                    // Refers to the field even if written by a different macro.
+                    ident.set_span(ident.span().resolved_at(field.member.span()));
+                }
+                tokens.push(TokenTree::Ident(ident));
                 begin_expr = false;
                 continue;
             } else if input.peek2(LitInt) {
                 input.parse::<Token![.]>()?;
                 let int: Index = input.parse()?;
                 tokens.push({
-                    let ident = format_ident!("_{}", int.index, span = int.span);
+                    let ident = format_ident!("_{}", int.index, span = local_span(int.span));
                     TokenTree::Ident(ident)
                 });
                 begin_expr = false;
@@ -228,7 +242,7 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
                 {
                     input.advance_to(&ahead);
                     tokens.push({
-                        let ident = format_ident!("_{}", first, span = float.span());
+                        let ident = format_ident!("_{}", first, span = local_span(float.span()));
                         TokenTree::Ident(ident)
                     });
                     tokens.push({
@@ -273,21 +287,21 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
         let token: TokenTree = if input.peek(token::Paren) {
             let content;
             let delimiter = parenthesized!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, true, fields)?;
             let mut group = Group::new(Delimiter::Parenthesis, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
         } else if input.peek(token::Brace) {
             let content;
             let delimiter = braced!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, true, fields)?;
             let mut group = Group::new(Delimiter::Brace, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
         } else if input.peek(token::Bracket) {
             let content;
             let delimiter = bracketed!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, true, fields)?;
             let mut group = Group::new(Delimiter::Bracket, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
@@ -299,6 +313,11 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
     Ok(TokenStream::from_iter(tokens))
 }
 
+// The span of a reference to the local variable for a field of a tuple.
+fn local_span(span: Span) -> Span {
+    span.resolved_at(Span::call_site())
+}
+
 // The parameter of the generated `fmt`. Its span keeps it apart from a field of
 // the same name.
 pub fn formatter() -> Ident {
diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 35362cc..fd307ed 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -1,5 +1,5 @@
 use crate::ast::{ContainerKind, Field};
-use crate::attr::{Display, Trait};
+use crate::attr::{parse_token_expr, Display, Trait};
 use crate::scan_expr::scan_expr;
 use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
@@ -13,6 +13,8 @@ use syn::{Expr, Ident, Index, LitStr, Token};
 
 impl Display<'_> {
     pub fn expand_shorthand(&mut self, fields: &[Field], container: ContainerKind) -> Result<()> {
+        let parse_args = |input: ParseStream| parse_token_expr(input, false, fields);
+        self.args = parse_args.parse2(self.args.clone())?;
         let raw_args = self.args.clone();
         let FmtArguments {
             named: user_named_args,
-- 
2.43.0


From 3fcfc1319db1f61c756acccd74d51f4927c1e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 14/14] fix: an interpolated expression keeps its grouping in
 format arguments

An expression that arrives through macro_rules as $e:expr is in an invisible
group. rustc disregards those in the output of a derive macro, so that
#[error("{}", 2 * $e)] printed 2 * 1 + 2 for 1 + 2.
---
 impl/src/attr.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index d8ad482..7be6ccc 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -1,13 +1,14 @@
 use crate::ast::Field;
+use crate::scan_expr::scan_expr;
 use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::collections::BTreeSet as Set;
 use syn::parse::discouraged::Speculative;
-use syn::parse::{End, ParseStream};
+use syn::parse::{End, ParseStream, Parser};
 use syn::{
-    braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, LitFloat,
-    LitInt, LitStr, Meta, Result, Token,
+    braced, bracketed, parenthesized, token, Attribute, Error, Expr, ExprPath, Ident, Index,
+    LitFloat, LitInt, LitStr, Meta, Result, Token,
 };
 
 pub struct Attrs<'a> {
@@ -205,7 +206,7 @@ pub(crate) fn parse_token_expr(
     while !input.is_empty() {
         if input.peek(token::Group) {
             let group: TokenTree = input.parse()?;
-            tokens.push(group);
+            tokens.push(visible_groups(group));
             begin_expr = false;
             continue;
         }
@@ -313,6 +314,48 @@ pub(crate) fn parse_token_expr(
     Ok(TokenStream::from_iter(tokens))
 }
 
+// An expression that was interpolated by a macro_rules macro as $e:expr is
+// wrapped in an invisible group, which rustc disregards in the output of a
+// derive macro. If the expression might regroup with the operators and method
+// calls around it, give it parentheses.
+fn visible_groups(tree: TokenTree) -> TokenTree {
+    let group = match tree {
+        TokenTree::Group(group) => group,
+        _ => return tree,
+    };
+    let stream = TokenStream::from_iter(group.stream().into_iter().map(visible_groups));
+    let delimiter = match group.delimiter() {
+        Delimiter::None if regroups(&stream) => Delimiter::Parenthesis,
+        delimiter => delimiter,
+    };
+    let mut visible = Group::new(delimiter, stream);
+    visible.set_span(group.span());
+    TokenTree::Group(visible)
+}
+
+fn regroups(expr: &TokenStream) -> bool {
+    match syn::parse2(expr.clone()) {
+        Ok(
+            Expr::Binary(_)
+            | Expr::Cast(_)
+            | Expr::Closure(_)
+            | Expr::Range(_)
+            | Expr::Reference(_)
+            | Expr::Unary(_),
+        ) => true,
+        Ok(_) => false,
+        // Might be an expression that only syn's "full" mode parses.
+        Err(_) => operation.parse2(expr.clone()).is_ok(),
+    }
+}
+
+fn operation(input: ParseStream) -> Result<()> {
+    if input.peek(Token![let]) {
+        return Err(input.error("unexpected let statement"));
+    }
+    scan_expr(input)
+}
+
 // The span of a reference to the local variable for a field of a tuple.
 fn local_span(span: Span) -> Span {
     span.resolved_at(Span::call_site())
-- 
2.43.0

