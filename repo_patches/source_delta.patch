From 82b68cffd1b76b5dfe956ca128cf9220935a41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 01/20] fix: allow `!` inside bare identifiers

KDL only excludes code points up to U+0020 from identifiers, but every
character after the first one was also checked against U+0021.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 46055cf..7a946c0 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -72,7 +72,7 @@ fn ws_char<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
 
 fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
     filter(|c| !matches!(c,
-        '\u{0000}'..='\u{0021}' |
+        '\u{0000}'..='\u{0020}' |
         '\\'|'/'|'('|')'|'{'|'}'|'<'|'>'|';'|'['|']'|'='|','|'"' |
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
-- 
2.43.0


From 516d34f0770d07031df5703309b7f415c3aeb1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 02/20] fix: do not accept a BOM inside bare identifiers

U+FEFF is whitespace in KDL (and in `ws_char`), so it separates tokens.
---
 src/grammar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 7a946c0..4a5f0f6 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -77,7 +77,7 @@ fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -92,7 +92,7 @@ fn id_sans_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -107,7 +107,7 @@ fn id_sans_sign_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
-- 
2.43.0


From 2de3292f69c31dcc6181567faa8901edbb64ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:34 +0000
Subject: [PATCH 03/20] fix: require a digit in the exponent of a number

`1e`, `1e+` and `1e_` were accepted as decimals that cannot be converted
to any number.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 4a5f0f6..3c2d80e 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -337,7 +337,7 @@ fn decimal_number<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
         just('.').chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .chain_c(just('e').or(just('E'))
            .chain_c(just('-').or(just('+')).or_not())
-           .chain_c(digits(10)).or_not().flatten())
+           .chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .map(|v| {
         let is_decimal = v.iter().any(|c| matches!(c, '.'|'e'|'E'));
         let s: String = v.into_iter().filter(|c| c != &'_').collect();
-- 
2.43.0


From e8d300715891726a3667468c4d4260aa081c8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 04/20] fix: never treat nested `/*` as a text of the comment

When a nested comment was unclosed parser fell back to treating its `/*`
as plain text, which accepted `/*/*/` and took exponential time on
unclosed comments.
---
 src/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 3c2d80e..7f8ca3f 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -128,7 +128,8 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     recursive::<_, _, _, _, Error<S>>(|comment| {
         choice((
             comment,
-            none_of('*').ignored(),
+            none_of("*/").ignored(),
+            just('/').then_ignore(none_of('*').rewind()).ignored(),
             just('*').then_ignore(none_of('/').rewind()).ignored(),
         )).repeated().ignored()
         .delimited_by(begin_comment('*'), just("*/"))
-- 
2.43.0


From 0e4fb6a011000489c01b9090c941f9a6b761bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 05/20] fix: report unclosed comment if `/*` is at the very end
 of input

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 7f8ca3f..3356a2b 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -136,7 +136,7 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     })
     .map_err_with_span(|e, span| {
         if matches!(&e, Error::Unexpected { found: TokenFormat::Eoi, .. }) &&
-           span.length() > 2
+           span.length() >= 2
         {
             e.merge(Error::Unclosed {
                 label: "comment",
-- 
2.43.0


From ef53065060f874ea984c5b8db58d822dd7dc47d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 06/20] fix: allow raw strings as node and type names

`r` was always parsed as a bare identifier, so `r"name"` was rejected
where quoted identifier is allowed.
---
 src/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 3356a2b..468f429 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -296,8 +296,9 @@ fn ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
     choice((
         // match -123 so `-` will not be treated as an ident by backtracking
         number().map(Err),
-        bare_ident().map(Ok),
+        // must precede bare ident, as `r` of the raw string is a valid ident
         string().map(Ok),
+        bare_ident().map(Ok),
     ))
     // when backtracking is not already possible,
     // throw error for numbers (mapped to `Result::Err`)
-- 
2.43.0


From 24d480d3a3bb3b3cde428009478753f8238a98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 07/20] fix: allow property names that start with a keyword

`node nullable=1` was rejected, as `null` was always cut off the name.
---
 src/grammar.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grammar.rs b/src/grammar.rs
index 468f429..5cecdcb 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -322,6 +322,9 @@ fn keyword<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
             .map_err(|e: Error<S>| e.with_expected_token("false"))
             .to(Literal::Bool(false)),
     ))
+    // `nullify` or `true-ish` isn't a keyword
+    .then_ignore(end().or(id_char().not().rewind().ignored())
+                 .map_err(|e: Error<S>| e.with_no_expected()))
 }
 
 fn digit<S: Span>(radix: u32) -> impl Parser<char, char, Error=Error<S>> {
-- 
2.43.0


From 8ab1a0cb318c26e197f9751fd5d6628ebbd2ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:14 +0000
Subject: [PATCH 08/20] fix: report unclosed raw string instead of unexpected
 identifier

`node r"text` failed with "identifiers cannot be used as arguments"
because `r` was taken for an identifier once the raw string failed.
---
 src/grammar.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 5cecdcb..c2d898a 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -262,12 +262,16 @@ fn escaped_string<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
 
 fn bare_ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
     let sign = just('+').or(just('-'));
-    choice((
+    // otherwise `r` of an unclosed raw string is reported as an identifier
+    let raw_string_start = just('r').then(just('#').repeated()).then(just('"'));
+    raw_string_start.not().rewind().ignored().or(end())
+    .map_err(|e: Error<S>| e.with_no_expected())
+    .ignore_then(choice((
         sign.chain(id_sans_dig().chain(id_char().repeated())),
         sign.repeated().exactly(1),
         id_sans_sign_dig().chain(id_char().repeated())
-    ))
-    .map(|v| v.into_iter().collect()).try_map(|s: String, span| {
+    )))
+    .map(|v: Vec<char>| v.into_iter().collect()).try_map(|s: String, span| {
         match &s[..] {
             "true" => Err(Error::Unexpected {
                 label: Some("keyword"),
-- 
2.43.0


From 3f235201b249418df03e02d9d95c922f71166845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:48 +0000
Subject: [PATCH 09/20] fix: recognize `usize` and `isize` as builtin type
 names

---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 48c446a..62ad58e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -256,6 +256,8 @@ impl FromStr for BuiltinType {
             "i32" => Ok(I32),
             "u64" => Ok(U64),
             "i64" => Ok(I64),
+            "usize" => Ok(Usize),
+            "isize" => Ok(Isize),
             "f32" => Ok(F32),
             "f64" => Ok(F64),
             "base64" => Ok(Base64),
-- 
2.43.0


From b0ead0b9786d4c236de167f330fc760eba2e7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 10/20] fix: report expected scalar kind of integers and floats
 correctly

---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 18bc0e4..09b3703 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -41,7 +41,7 @@ macro_rules! impl_integer {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Int, val));
                         Ok(0)
                     }
                 }
@@ -102,7 +102,7 @@ macro_rules! impl_float {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Decimal, val));
                         Ok(0.0)
                     }
                 }
-- 
2.43.0


From 5cbe29db7ae7cf384ede2f20165252fcc0562101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 11/20] fix: do not panic when decoding wrapped `Value` scalars

---
 src/containers.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/containers.rs b/src/containers.rs
index a09b023..263c78c 100644
--- a/src/containers.rs
+++ b/src/containers.rs
@@ -50,6 +50,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Box<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Box::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Box::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Arc<T> {
@@ -96,6 +101,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Arc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Arc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Arc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Rc<T> {
@@ -142,6 +152,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Rc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Rc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Rc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> DecodeChildren<S> for Vec<T> {
@@ -172,6 +187,17 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Option<T> {
             _ => DecodeScalar::raw_decode(value, ctx).map(Some),
         }
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        match &*value.literal {
+            Literal::Null => {
+                T::type_check(&value.type_name, ctx);
+                Ok(None)
+            }
+            _ => DecodeScalar::decode(value, ctx).map(Some),
+        }
+    }
 }
 
 impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
@@ -192,4 +218,13 @@ impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
             value: decoded,
         })
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        let decoded = T::decode(value, ctx)?;
+        Ok(Spanned {
+            span: DecodeSpan::decode_span(&value.literal.span, ctx),
+            value: decoded,
+        })
+    }
 }
-- 
2.43.0


From 3d8219e0593d4bef1020bfd651ca45833fc6d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 12/20] fix: make derive work for new types around non-optional
 structures

---
 derive/src/node.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 5a3d381..86dcea0 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -157,6 +157,22 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+    let decode = if s.option {
+        quote! {
+            if #node.arguments.len() > 0 ||
+                #node.properties.len() > 0 ||
+                #node.children.is_some()
+            {
+                ::knuffel::Decode::decode_node(#node, #ctx)
+                    .map(Some)
+                    .map(#s_name)
+            } else {
+                Ok(#s_name(None))
+            }
+        }
+    } else {
+        quote!(::knuffel::Decode::decode_node(#node, #ctx).map(#s_name))
+    };
     Ok(quote! {
         impl<S: ::knuffel::traits::ErrorSpan>
             ::knuffel::Decode<S> for #s_name
@@ -165,16 +181,7 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
                            #ctx: &mut ::knuffel::decode::Context<S>)
                 -> Result<Self, ::knuffel::errors::DecodeError<S>>
             {
-                if #node.arguments.len() > 0 ||
-                    #node.properties.len() > 0 ||
-                    #node.children.is_some()
-                {
-                    ::knuffel::Decode::decode_node(#node, #ctx)
-                        .map(Some)
-                        .map(#s_name)
-                } else {
-                    Ok(#s_name(None))
-                }
+                #decode
             }
         }
     })
-- 
2.43.0


From b6f283bb23155e496bcabd7258d79e505ec4e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 13/20] fix: make derive work for tuple structures having only
 optional properties

---
 derive/src/definition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 2f2d221..177794e 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -948,7 +948,10 @@ impl Field {
     }
     pub fn from_self(&self) -> TokenStream {
         match &self.attr {
-            AttrAccess::Indexed(idx) => quote!(self.#idx),
+            AttrAccess::Indexed(idx) => {
+                let idx = syn::Index::from(*idx);
+                quote!(self.#idx)
+            }
             AttrAccess::Named(name) => quote!(self.#name),
         }
     }
-- 
2.43.0


From 5475351321b03928f4853919560d60c644cb0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 14/20] fix: make derive work for structures with optional list
 of named children

---
 derive/src/node.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 86dcea0..2a5c00a 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -632,7 +632,12 @@ fn decode_node(common: &Common, child_def: &Child, in_partial: bool,
         (quote!(), quote!(::knuffel::Decode::decode_node))
     };
     let value = syn::Ident::new("value", Span::mixed_site());
-    let assign = if matches!(child_def.mode, ChildMode::Multi) {
+    let assign = if matches!(child_def.mode, ChildMode::Multi) && in_partial {
+        quote! {
+            #dest.get_or_insert_with(::std::default::Default::default)
+                .extend(::std::iter::once(#value))
+        }
+    } else if matches!(child_def.mode, ChildMode::Multi) {
         quote!(#dest.push(#value))
     } else {
         quote!(#dest = Some(#value))
@@ -690,6 +695,11 @@ fn insert_child(s: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
                     Ok(true)
                 }
             });
+        } else if matches!(child_def.mode, ChildMode::Multi) {
+            let decode = decode_node(s, &child_def, true, node)?;
+            match_branches.push(quote! {
+                #child_name => #decode
+            });
         } else {
             let dup_err = format!("duplicate node `{}`, single node expected",
                                   child_name.escape_default());
-- 
2.43.0


From bea09ae2e9dba1dd78882bac5cc77616f77d89c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:51 +0000
Subject: [PATCH 15/20] fix: make derive work for `flatten(child, property)`

---
 derive/src/definition.rs | 8 +++++++-
 derive/src/node.rs       | 9 ++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 177794e..e955724 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -603,6 +603,10 @@ impl Struct {
 
         Ok(bld.build())
     }
+    pub fn has_flatten_property(&self, field: &Field) -> bool {
+        self.properties.iter()
+            .any(|p| p.flatten && p.field.tmp_name == field.tmp_name)
+    }
     pub fn all_fields(&self) -> Vec<&Field> {
         let mut res = Vec::new();
         res.extend(self.spans.iter().map(|a| &a.field));
@@ -612,7 +616,9 @@ impl Struct {
         res.extend(self.var_args.iter().map(|a| &a.field));
         res.extend(self.properties.iter().map(|p| &p.field));
         res.extend(self.var_props.iter().map(|p| &p.field));
-        res.extend(self.children.iter().map(|c| &c.field));
+        res.extend(self.children.iter().map(|c| &c.field)
+            // `flatten(child, property)` is a single field
+            .filter(|f| !self.has_flatten_property(f)));
         res.extend(self.var_children.iter().map(|c| &c.field));
         res.extend(self.extra_fields.iter().map(|f| &f.field));
         return res;
diff --git a/derive/src/node.rs b/derive/src/node.rs
index 2a5c00a..8b60ac2 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -782,9 +782,12 @@ fn decode_children(s: &Common, children: &syn::Ident,
         let child_name = &child_def.name;
         match child_def.mode {
             ChildMode::Flatten => {
-                declare_empty.push(quote! {
-                    let mut #fld = ::std::default::Default::default();
-                });
+                // already declared when decoding properties
+                if !s.object.has_flatten_property(&child_def.field) {
+                    declare_empty.push(quote! {
+                        let mut #fld = ::std::default::Default::default();
+                    });
+                }
                 match_branches.push(quote! {
                     _ if (
                         match ::knuffel::traits::DecodePartial
-- 
2.43.0


From 3dddeceae35e1f774fb8e6e6045aade408781318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:51 +0000
Subject: [PATCH 16/20] fix: make derive work for optional children with a
 default

---
 derive/src/node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 8b60ac2..5303ea8 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -872,9 +872,15 @@ fn decode_children(s: &Common, children: &syn::Ident,
                     } else {
                         quote!(::std::default::Default::default())
                     };
-                    postprocess.push(quote! {
-                        let #fld = #fld.unwrap_or_else(|| #default);
-                    });
+                    if child_def.option && child_def.unwrap.is_none() {
+                        postprocess.push(quote! {
+                            let #fld = #fld.or_else(|| #default);
+                        });
+                    } else {
+                        postprocess.push(quote! {
+                            let #fld = #fld.unwrap_or_else(|| #default);
+                        });
+                    }
                 } else if !child_def.option {
                     if let Some(span) = &err_span {
                         postprocess.push(quote! {
-- 
2.43.0


From 396bee2104ba06dd42079564fb95d13c31c17575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:08 +0000
Subject: [PATCH 17/20] fix: do not silently ignore type names of flags, enum
 variants and unwrapped nodes

---
 derive/src/node.rs     | 7 ++++++-
 derive/src/variants.rs | 9 ++++++++-
 src/decode.rs          | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 5303ea8..854757a 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -159,7 +159,8 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
     let decode = if s.option {
         quote! {
-            if #node.arguments.len() > 0 ||
+            if #node.type_name.is_some() ||
+                #node.arguments.len() > 0 ||
                 #node.properties.len() > 0 ||
                 #node.children.is_some()
             {
@@ -192,6 +193,7 @@ pub(crate) fn decode_enum_item(s: &Common,
     -> syn::Result<TokenStream>
 {
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(s, node)?;
     let decode_args = decode_args(s, node)?;
     let decode_props = decode_props(s, node)?;
     let decode_children = decode_children(s, &children,
@@ -214,6 +216,7 @@ pub(crate) fn decode_enum_item(s: &Common,
         quote!{ #s_name(#(#assignments),*) }
     };
     Ok(quote! {
+        #decode_specials
         #decode_args
         #decode_props
         let #children = #node.children.as_ref()
@@ -594,6 +597,7 @@ fn unwrap_fn(parent: &Common,
 
     let node = syn::Ident::new("node", Span::mixed_site());
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(&common, &node)?;
     let decode_args = decode_args(&common, &node)?;
     let decode_props = decode_props(&common, &node)?;
     let decode_children = decode_children(&common, &children,
@@ -602,6 +606,7 @@ fn unwrap_fn(parent: &Common,
         let mut #func = |#node: &::knuffel::ast::SpannedNode<#span_ty>,
                          #ctx: &mut ::knuffel::decode::Context<#span_ty>|
         {
+            #decode_specials
             #decode_args
             #decode_props
             let #children = #node.children.as_ref()
diff --git a/derive/src/variants.rs b/derive/src/variants.rs
index 7b9e3b4..9ed277b 100644
--- a/derive/src/variants.rs
+++ b/derive/src/variants.rs
@@ -66,6 +66,12 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
             VariantKind::Unit => {
                 branches.push(quote! {
                     #name => {
+                        if let Some(type_name) = &#node.type_name {
+                            #ctx.emit_error(
+                                ::knuffel::errors::DecodeError::unexpected(
+                                    type_name, "type name",
+                                    "no type name expected for this node"));
+                        }
                         for arg in &#node.arguments {
                             #ctx.emit_error(
                                 ::knuffel::errors::DecodeError::unexpected(
@@ -102,7 +108,8 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
             VariantKind::Nested { option: true } => {
                 branches.push(quote! {
                     #name => {
-                        if #node.arguments.len() > 0 ||
+                        if #node.type_name.is_some() ||
+                            #node.arguments.len() > 0 ||
                             #node.properties.len() > 0 ||
                             #node.children.is_some()
                         {
diff --git a/src/decode.rs b/src/decode.rs
index 72193f1..0fff0c3 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -101,13 +101,19 @@ pub fn bytes<S: ErrorSpan>(value: &Value<S>, ctx: &mut Context<S>) -> Vec<u8> {
 
 /// Emits error(s) if node is not a flag node
 ///
-/// Flag node is a node that has no arguments, properties or children.
+/// Flag node is a node that has no type name, arguments, properties or
+/// children.
 ///
 /// Used internally by `#[knuffel(child)] x: bool,`. But can be used
 /// manually for implementing [`DecodeScalar`](crate::traits::DecodeScalar).
 pub fn check_flag_node<S: ErrorSpan>(
     node: &SpannedNode<S>, ctx: &mut Context<S>)
 {
+    if let Some(type_name) = &node.type_name {
+        ctx.emit_error(DecodeError::unexpected(
+                type_name, "type name",
+                "no type name expected for this node"));
+    }
     for arg in &node.arguments {
         ctx.emit_error(DecodeError::unexpected(
                 &arg.literal, "argument",
-- 
2.43.0


From c5525d6bcc59836962e737ec48fb5f24f59d78f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:26 +0000
Subject: [PATCH 18/20] fix: make derives work for types named `S`

The type parameter that the derives add for the span was named `S`, so it
shadowed a user's type or type parameter of that name.
---
 derive/src/node.rs     | 16 ++++++++--------
 derive/src/scalar.rs   | 12 ++++++------
 derive/src/variants.rs |  6 +++---
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 854757a..83c1ff3 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -34,10 +34,10 @@ pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
             common_generics.lt_token = Some(Default::default());
             common_generics.gt_token = Some(Default::default());
         }
-        common_generics.params.push(syn::parse2(quote!(S)).unwrap());
-        span_ty = quote!(S);
+        common_generics.params.push(syn::parse2(quote!(__S)).unwrap());
+        span_ty = quote!(__S);
         common_generics.make_where_clause().predicates.push(
-            syn::parse2(quote!(S: ::knuffel::traits::ErrorSpan)).unwrap());
+            syn::parse2(quote!(__S: ::knuffel::traits::ErrorSpan)).unwrap());
     };
     let trait_gen = quote!(<#span_ty>);
     let (impl_gen, _, bounds) = common_generics.split_for_impl();
@@ -175,12 +175,12 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
         quote!(::knuffel::Decode::decode_node(#node, #ctx).map(#s_name))
     };
     Ok(quote! {
-        impl<S: ::knuffel::traits::ErrorSpan>
-            ::knuffel::Decode<S> for #s_name
+        impl<__S: ::knuffel::traits::ErrorSpan>
+            ::knuffel::Decode<__S> for #s_name
         {
-            fn decode_node(#node: &::knuffel::ast::SpannedNode<S>,
-                           #ctx: &mut ::knuffel::decode::Context<S>)
-                -> Result<Self, ::knuffel::errors::DecodeError<S>>
+            fn decode_node(#node: &::knuffel::ast::SpannedNode<__S>,
+                           #ctx: &mut ::knuffel::decode::Context<__S>)
+                -> Result<Self, ::knuffel::errors::DecodeError<__S>>
             {
                 #decode
             }
diff --git a/derive/src/scalar.rs b/derive/src/scalar.rs
index b2635c0..06a551a 100644
--- a/derive/src/scalar.rs
+++ b/derive/src/scalar.rs
@@ -98,12 +98,12 @@ pub fn emit_enum(e: &Enum) -> syn::Result<TokenStream> {
             quote!(#name => Ok(#e_name::#ident))
         });
     Ok(quote! {
-        impl<S: ::knuffel::traits::ErrorSpan> ::knuffel::DecodeScalar<S>
+        impl<__S: ::knuffel::traits::ErrorSpan> ::knuffel::DecodeScalar<__S>
                 for #e_name {
             fn raw_decode(val: &::knuffel::span::Spanned<
-                          ::knuffel::ast::Literal, S>,
-                          ctx: &mut ::knuffel::decode::Context<S>)
-                -> Result<#e_name, ::knuffel::errors::DecodeError<S>>
+                          ::knuffel::ast::Literal, __S>,
+                          ctx: &mut ::knuffel::decode::Context<__S>)
+                -> Result<#e_name, ::knuffel::errors::DecodeError<__S>>
             {
                 match &**val {
                     ::knuffel::ast::Literal::String(ref s) => {
@@ -124,8 +124,8 @@ pub fn emit_enum(e: &Enum) -> syn::Result<TokenStream> {
                 }
             }
             fn type_check(type_name: &Option<::knuffel::span::Spanned<
-                          ::knuffel::ast::TypeName, S>>,
-                          ctx: &mut ::knuffel::decode::Context<S>)
+                          ::knuffel::ast::TypeName, __S>>,
+                          ctx: &mut ::knuffel::decode::Context<__S>)
             {
                 if let Some(typ) = type_name {
                     ctx.emit_error(::knuffel::errors::DecodeError::TypeName {
diff --git a/derive/src/variants.rs b/derive/src/variants.rs
index 9ed277b..e11d1fd 100644
--- a/derive/src/variants.rs
+++ b/derive/src/variants.rs
@@ -26,10 +26,10 @@ pub fn emit_enum(e: &Enum) -> syn::Result<TokenStream> {
             common_generics.lt_token = Some(Default::default());
             common_generics.gt_token = Some(Default::default());
         }
-        common_generics.params.push(syn::parse2(quote!(S)).unwrap());
-        span_ty = quote!(S);
+        common_generics.params.push(syn::parse2(quote!(__S)).unwrap());
+        span_ty = quote!(__S);
         common_generics.make_where_clause().predicates.push(
-            syn::parse2(quote!(S: ::knuffel::traits::ErrorSpan)).unwrap());
+            syn::parse2(quote!(__S: ::knuffel::traits::ErrorSpan)).unwrap());
     };
     let trait_gen = quote!(<#span_ty>);
     let (impl_gen, _, bounds) = common_generics.split_for_impl();
-- 
2.43.0


From 9b0ba44fe0bbc9dbff418fba0df72b56b6a63ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:42 +0000
Subject: [PATCH 19/20] fix: respect span_type and generics of new types

`#[knuffel(span_type=..)]` and type parameters of a `Wrapper(Inner)` were
ignored by the derive, so a new type around a structure that has a span
could not be compiled.
---
 derive/src/node.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 83c1ff3..226843a 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -174,13 +174,24 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     } else {
         quote!(::knuffel::Decode::decode_node(#node, #ctx).map(#s_name))
     };
+    let (_, type_gen, _) = s.generics.split_for_impl();
+    let mut generics = s.generics.clone();
+    let span_ty = if let Some(ty) = s.trait_props.span_type.as_ref() {
+        quote!(#ty)
+    } else {
+        generics.params.push(syn::parse2(quote!(__S)).unwrap());
+        generics.make_where_clause().predicates.push(
+            syn::parse2(quote!(__S: ::knuffel::traits::ErrorSpan)).unwrap());
+        quote!(__S)
+    };
+    let (impl_gen, _, bounds) = generics.split_for_impl();
     Ok(quote! {
-        impl<__S: ::knuffel::traits::ErrorSpan>
-            ::knuffel::Decode<__S> for #s_name
+        impl #impl_gen ::knuffel::Decode<#span_ty> for #s_name #type_gen
+            #bounds
         {
-            fn decode_node(#node: &::knuffel::ast::SpannedNode<__S>,
-                           #ctx: &mut ::knuffel::decode::Context<__S>)
-                -> Result<Self, ::knuffel::errors::DecodeError<__S>>
+            fn decode_node(#node: &::knuffel::ast::SpannedNode<#span_ty>,
+                           #ctx: &mut ::knuffel::decode::Context<#span_ty>)
+                -> Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
             {
                 #decode
             }
-- 
2.43.0


From 82affbb9297d9cf9af625e06dcc4e282047d0c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:25 +0000
Subject: [PATCH 20/20] fix: do not require `Result` to be the standard one
 where derives are used

A `type Result<T> = ..` or `use std::io::Result` in scope made the derived
code fail to compile.
---
 derive/src/node.rs     | 16 ++++++++--------
 derive/src/scalar.rs   |  2 +-
 derive/src/variants.rs |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 226843a..bc2057d 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -96,7 +96,7 @@ pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
                 fn insert_child(&mut self,
                     #node: &::knuffel::ast::SpannedNode<#span_ty>,
                     #ctx: &mut ::knuffel::decode::Context<#span_ty>)
-                    -> Result<bool, ::knuffel::errors::DecodeError<#span_ty>>
+                    -> ::std::result::Result<bool, ::knuffel::errors::DecodeError<#span_ty>>
                 {
                     #insert_child
                 }
@@ -104,7 +104,7 @@ pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
                     #name: &::knuffel::span::Spanned<Box<str>, #span_ty>,
                     #value: &::knuffel::ast::Value<#span_ty>,
                     #ctx: &mut ::knuffel::decode::Context<#span_ty>)
-                    -> Result<bool, ::knuffel::errors::DecodeError<#span_ty>>
+                    -> ::std::result::Result<bool, ::knuffel::errors::DecodeError<#span_ty>>
                 {
                     #insert_property
                 }
@@ -123,7 +123,7 @@ pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
                 fn decode_children(
                     #children: &[::knuffel::ast::SpannedNode<#span_ty>],
                     #ctx: &mut ::knuffel::decode::Context<#span_ty>)
-                    -> Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
+                    -> ::std::result::Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
                 {
                     #decode_children
                     #assign_extra
@@ -139,7 +139,7 @@ pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
         {
             fn decode_node(#node: &::knuffel::ast::SpannedNode<#span_ty>,
                            #ctx: &mut ::knuffel::decode::Context<#span_ty>)
-                -> Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
+                -> ::std::result::Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
             {
                 #decode_specials
                 #decode_args
@@ -191,7 +191,7 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
         {
             fn decode_node(#node: &::knuffel::ast::SpannedNode<#span_ty>,
                            #ctx: &mut ::knuffel::decode::Context<#span_ty>)
-                -> Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
+                -> ::std::result::Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
             {
                 #decode
             }
@@ -457,7 +457,7 @@ fn decode_args(s: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
         decoder.push(quote! {
             let #fld = #iter_args.map(|#val| {
                 #decode_value
-            }).collect::<Result<_, _>>()?;
+            }).collect::<::std::result::Result<_, _>>()?;
         });
     } else {
         decoder.push(quote! {
@@ -967,7 +967,7 @@ fn decode_children(s: &Common, children: &syn::Ident,
                 match &**#child.node_name {
                     #(#match_branches)*
                 }
-            }).collect::<Result<_, ::knuffel::errors::DecodeError<_>>>()?;
+            }).collect::<::std::result::Result<_, ::knuffel::errors::DecodeError<_>>>()?;
             #(#postprocess)*
         })
     } else {
@@ -987,7 +987,7 @@ fn decode_children(s: &Common, children: &syn::Ident,
                 match &**#child.node_name {
                     #(#match_branches)*
                 }
-            }).collect::<Result<(), ::knuffel::errors::DecodeError<_>>>()?;
+            }).collect::<::std::result::Result<(), ::knuffel::errors::DecodeError<_>>>()?;
             #(#postprocess)*
         })
     }
diff --git a/derive/src/scalar.rs b/derive/src/scalar.rs
index 06a551a..97febb5 100644
--- a/derive/src/scalar.rs
+++ b/derive/src/scalar.rs
@@ -103,7 +103,7 @@ pub fn emit_enum(e: &Enum) -> syn::Result<TokenStream> {
             fn raw_decode(val: &::knuffel::span::Spanned<
                           ::knuffel::ast::Literal, __S>,
                           ctx: &mut ::knuffel::decode::Context<__S>)
-                -> Result<#e_name, ::knuffel::errors::DecodeError<__S>>
+                -> ::std::result::Result<#e_name, ::knuffel::errors::DecodeError<__S>>
             {
                 match &**val {
                     ::knuffel::ast::Literal::String(ref s) => {
diff --git a/derive/src/variants.rs b/derive/src/variants.rs
index e11d1fd..75b94e9 100644
--- a/derive/src/variants.rs
+++ b/derive/src/variants.rs
@@ -47,7 +47,7 @@ pub fn emit_enum(e: &Enum) -> syn::Result<TokenStream> {
         {
             fn decode_node(#node: &::knuffel::ast::SpannedNode<#span_ty>,
                            #ctx: &mut ::knuffel::decode::Context<#span_ty>)
-                -> Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
+                -> ::std::result::Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
             {
                 #decode
             }
-- 
2.43.0

