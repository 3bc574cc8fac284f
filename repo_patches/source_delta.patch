From cf5eb135d8da6f65ab730b6bec816a0c29204074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:01 +0000
Subject: [PATCH 01/20] fix: Bytes::shrink_to checks inlined slices against
 their actual length

The bound was checked against the raw `len` field, which holds data when
the slice is inlined: shrinking, splitting or reading a short inlined slice
panicked, and an out of bounds range could be accepted.
---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 4226029..6682157 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -232,7 +232,7 @@ impl<'a> Bytes<'a> {
             core::ops::Bound::Unbounded => self.len(),
         };
         assert!(start <= end);
-        assert!(end <= self.len);
+        assert!(end <= self.len());
         let len = end - start;
         if len <= Self::MAX_INLINE_SIZE {
             // SAFETY: `&self[start..end]` length has been checked, which is `inline_unchecked`'s only safety requirement.
-- 
2.43.0


From 929a1ce8a50f72e3eb57a95c37377e824246472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:01 +0000
Subject: [PATCH 02/20] fix: Bytes::noalloc_upgrade no longer extends the
 lifetime of borrowed data

The condition was inverted: borrowed slices were declared `'static`, owned
ones refused.
---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 6682157..0ee515f 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -346,7 +346,7 @@ impl<'a> Bytes<'a> {
     /// # Errors
     /// Returns the original instance if it couldn't be proven to be `'static`.
     pub fn noalloc_upgrade(self: Bytes<'a>) -> Result<Bytes<'static>, Self> {
-        if !self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
+        if self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
             Ok(unsafe { mem::transmute(self) })
         } else {
             Self::inline_slice(&self).ok_or(self)
-- 
2.43.0


From cac727e2aa146322ecaa8a497aaf037130581c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:01 +0000
Subject: [PATCH 03/20] fix: Bytes::{upgrade,clone}_will_allocate use the
 actual inline threshold

For lengths between MAX_INLINE_SIZE + 1 and size_of::<Bytes>() - 1, both
predicates said that no allocation would happen, yet one did.
---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 0ee515f..bd09de6 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -374,7 +374,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Self::upgrade`] would cause an allocation.
     pub fn upgrade_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.is_borrowed() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.is_borrowed() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
@@ -382,7 +382,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Clone::clone`] would cause an allocation.
     pub fn clone_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.retain.is_none() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.retain.is_none() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
-- 
2.43.0


From dd21e45b9013a9c99a1ee453617357193258e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:01 +0000
Subject: [PATCH 04/20] fix: Bytes::shrink_to refuses ranges whose bounds
 overflow

Without overflow checks, `..=usize::MAX` wrapped around to an empty range
instead of panicking.
---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index bd09de6..d9dcaa5 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -223,11 +223,11 @@ impl<'a> Bytes<'a> {
     pub fn shrink_to<R: RangeBounds<usize>>(&mut self, range: R) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1).expect("range start overflows"),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1).expect("range end overflows"),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From c65315b4660a77843d772fae5739475ae447247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:14 +0000
Subject: [PATCH 05/20] fix: Bytes::noalloc_clone inlines short slices that
 cannot be retained

It returned `None` for them although cloning them does not allocate, as
`clone_will_allocate` says too.
---
 src/bytes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index d9dcaa5..e547c99 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -359,7 +359,9 @@ impl<'a> Bytes<'a> {
             // SAFETY: `Bytes` is `Copy` if it is inlined.
             return Some(unsafe { core::ptr::read(self) });
         };
-        let retain = vtable.retain?;
+        let Some(retain) = vtable.retain else {
+            return Self::inline_slice(self.as_slice());
+        };
         unsafe { retain(self.owner, self.capacity) };
         Some(Self {
             start: self.start,
-- 
2.43.0


From 479c2ce884bbc673703ad704d0864bdbbdb0a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 06/20] fix: Bytes deserialization does not trust the
 sequence's size hint

---
 src/bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index e547c99..d808fcd 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -854,7 +854,8 @@ impl<'de> serde::de::Visitor<'de> for BytesVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut buf = Vec::with_capacity(seq.size_hint().unwrap_or(64));
+        // A hint is not a promise: cap what gets allocated upfront because of it.
+        let mut buf = Vec::with_capacity(seq.size_hint().unwrap_or(64).min(4096));
 
         while let Some(c) = seq.next_element::<u8>()? {
             buf.push(c);
-- 
2.43.0


From c570720b5c080f7b15808d0c49407948ba3581bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:13 +0000
Subject: [PATCH 07/20] fix: headers Builder::generate flushes its target

---
 src/headers/_mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 8bcd974..6089f59 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -304,7 +304,9 @@ match_! {(
             }.generate_with_definer(&mut HashSetDefiner {
                 out: &mut target,
                 defines_set: Default::default(),
-            })
+            })?;
+            // Otherwise a buffered `target` would discard the errors of its last write.
+            target.flush()
         }
 
         // pub
-- 
2.43.0


From 4b80c9781f28a758ae61db1b21b8a96a1e7cccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 08/20] fix: #[ffi_export] async fns honor rename

---
 src/proc_macro/ffi_export/fn_/async_fn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/ffi_export/fn_/async_fn.rs b/src/proc_macro/ffi_export/fn_/async_fn.rs
index 00a98c4..558b035 100644
--- a/src/proc_macro/ffi_export/fn_/async_fn.rs
+++ b/src/proc_macro/ffi_export/fn_/async_fn.rs
@@ -318,8 +318,11 @@ fn export (
         let pub_ = &fun.vis;
         let each_attr = &fun.attrs;
         fun_signature.asyncness = None;
+        let mb_rename = rename.as_ref().map(|Rename { new_name, .. }| quote!(
+            (rename = #new_name)
+        ));
         quote!(
-            #[::safer_ffi::ffi_export]
+            #[::safer_ffi::ffi_export #mb_rename]
             #(#each_attr)*
             #pub_ #fun_signature
             {
-- 
2.43.0


From 5fcd6a9433af445f0d84351caaa85a2b63d66859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 09/20] fix: C headers of pointers to, and of functions
 returning, function pointers

---
 src/layout/impls.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ea518a3..e298d62 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -299,16 +299,21 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt, "{} ", Ret::name(&crate::headers::languages::C))?;
-                write!(fmt, "(*{})(", var_name)?;
+                // `Ret` may itself be a function pointer, which then wraps it.
+                let mut declarator = format!("(*{})(", var_name);
                 let _empty = true; $(
                 let _empty = false;
-                write!(fmt, "{}", $An::name(&crate::headers::languages::C))?; $(
-                write!(fmt, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
+                declarator.push_str(&$An::name(&crate::headers::languages::C)); $(
+                declarator.push_str(", ");
+                declarator.push_str(&$Ai::name(&crate::headers::languages::C)); )*)?
                 if _empty {
-                    fmt.write_str("void")?;
+                    declarator.push_str("void");
                 }
-                fmt.write_str(")")
+                declarator.push_str(")");
+                fmt.write_str(&Ret::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &declarator,
+                ))
             }
 
             __cfg_csharp__! {
@@ -608,12 +613,14 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} const *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                // `T` may be a function pointer, which then wraps the `*`.
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("const *{sep}{}",
+                        var_name,
+                        sep = if var_name.is_empty() { "" } else { " " },
+                    ),
+                ))
             }
 
             __cfg_csharp__! {
@@ -675,12 +682,14 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                // `T` may be a function pointer, which then wraps the `*`.
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("*{sep}{}",
+                        var_name,
+                        sep = if var_name.is_empty() { "" } else { " " },
+                    ),
+                ))
             }
 
             __cfg_csharp__! {
-- 
2.43.0


From 5fe7538ba486959068c2147192439b55401a380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 10/20] fix: C headers that use ssize_t include the header that
 defines it

---
 src/layout/impls.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index e298d62..23487b1 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -503,7 +503,17 @@ const _: () = { macro_rules! impl_CTypes {
                             "\n",
                         ),
                     ),
-                )
+                )?;
+                if $CInt == "ssize" {
+                    // `ssize_t` does not come from the C standard but from POSIX.
+                    definer.define_once(
+                        "__ssize_header__",
+                        &mut |definer| write!(definer.out(),
+                            "\n#include <sys/types.h>\n\n",
+                        ),
+                    )?;
+                }
+                Ok(())
             }
 
             fn c_var_fmt (
-- 
2.43.0


From e41f0f8b61c017ffbd1de9204041c793dbd6e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 11/20] fix: stable headers keep the items of distinct modules
 that share their name

---
 src/headers/_mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 6089f59..30acabc 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -401,15 +401,19 @@ impl Builder<'_, WhereTo> {
         ;
         let (mut storage0, mut storage1) = (None, None);
         let gen_defs: &mut dyn Iterator<Item = _> = if stable_header {
-            storage0.get_or_insert(
-                crate::inventory::iter
-                    .into_iter()
-                    .map(|crate::FfiExport { name, gen_def }| (name, gen_def))
-                    // Sort the definitions for a reliable header generation.
-                    .collect::<::std::collections::BTreeMap<_, _>>()
+            storage0.get_or_insert({
+                let mut exports =
+                    crate::inventory::iter
+                        .into_iter()
+                        .collect::<rust::Vec<_>>()
+                ;
+                // Sort the definitions for a reliable header generation.
+                // Items of distinct modules may share their name: keep them all.
+                exports.sort_by_key(|crate::FfiExport { name, .. }| *name);
+                exports
                     .into_iter()
-                    .map(|(_, gen_def)| gen_def)
-            )
+                    .map(|crate::FfiExport { gen_def, .. }| gen_def)
+            })
         } else {
             storage1.get_or_insert(
                 crate::inventory::iter
-- 
2.43.0


From ac48d5bc2db494e553282129f9b45ebcd94103cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 12/20] fix: enum discriminants in headers have the type of the
 enum's repr, not i32

---
 src/proc_macro/derives/repr_c/enum_.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 6b7893e..41feb1f 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -63,7 +63,7 @@ fn derive (
         }
     }
 
-    let (mb_phantom_int, Int @ _) = parse_discriminant_type(attrs, &mut ret)?;
+    let (mb_phantom_int, Int @ _, DiscTy @ _) = parse_discriminant_type(attrs, &mut ret)?;
 
     let EnumName_Layout @ _ = format_ident!("{}_Layout", EnumName);
 
@@ -139,8 +139,10 @@ fn derive (
             variants.try_vmap(|v| Result::Ok({
                 let ref VariantName_str = v.ident.to_string();
                 let discriminant = if let Some((_eq, disc)) = &v.discriminant {
+                    // The discriminant has the type of the `enum`'s `repr`,
+                    // lest `!0` or `1 << 31` be those of an `i32`.
                     quote!(
-                        #ඞ::Some(&(#disc, ).0 as _)
+                        #ඞ::Some(&#ඞ::convert::identity::<#DiscTy>(#disc) as _)
                     )
                 } else {
                     quote!(
@@ -282,6 +284,7 @@ fn parse_discriminant_type (
 ) -> Result<(
         Quote![Option<&impl PhantomCType>],
         TokenStream2,
+        TokenStream2,
     )>
 {
     let repr_attr =
@@ -298,7 +301,7 @@ fn parse_discriminant_type (
         bail!("expected an integral `repr` specifier" => repr_attr);
     }
     let parsed_reprs = reprs.iter().try_vmap(Repr::try_from)?;
-    let (c_type, repr) =
+    let (c_type, repr, discriminant) =
         match
             ::core::iter::zip(parsed_reprs, reprs)
                 .find(|(parsed, _ident)| matches!(parsed, Repr::C).not())
@@ -313,6 +316,7 @@ fn parse_discriminant_type (
                             &::safer_ffi::ඞ::marker::PhantomData::<#IntTy>
                         )
                     ),
+                    IntTy.clone(),
                     IntTy,
                 )
             },
@@ -333,6 +337,9 @@ fn parse_discriminant_type (
                         ::safer_ffi::ඞ::None
                     ),
                     IntTy,
+                    quote!(
+                        ::safer_ffi::ඞ::isize
+                    ),
                 )
             },
             | None => bail! {
@@ -341,7 +348,7 @@ fn parse_discriminant_type (
         }
     ;
 
-    Ok((c_type, repr))
+    Ok((c_type, repr, discriminant))
 }
 
 match_! {(
-- 
2.43.0


From b3eab68ad43f4573e9e1a5b949b440750271bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 13/20] fix: C headers write constants that are not finite, or
 text with escapes, as C literals

---
 src/headers/languages/c.rs | 50 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 4082680..028ff54 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -250,17 +250,24 @@ impl HeaderLanguage for C {
     ) -> io::Result<()>
     {
         let ref indent = Indentation::new(4 /* ctx.indent_width() */);
+        let value = c_literal(format!("{value:?}"));
+        if ["NAN", "INFINITY", "-INFINITY"].contains(&&*value) {
+            ctx.define_once(
+                "__float_headers__",
+                &mut |ctx| write!(ctx.out(), "\n#include <math.h>\n\n"),
+            )?;
+        }
         mk_out!(indent, ctx.out());
 
         self.emit_docs(ctx, docs, indent)?;
         if skip_type {
             out!((
-                "#define {name} {value:?}"
+                "#define {name} {value}"
             ));
         } else {
             let ty = ty.name(self);
             out!((
-                "#define {name} (({ty}) {value:?})"
+                "#define {name} (({ty}) {value})"
             ));
         }
 
@@ -268,3 +275,42 @@ impl HeaderLanguage for C {
         Ok(())
     }
 }
+
+/// The C counterpart of the Rust literal that `Debug`-formatting a constant yields.
+fn c_literal (
+    rust_literal: String,
+) -> String
+{
+    match &*rust_literal {
+        | "NaN" => return "NAN".into(),
+        | "inf" => return "INFINITY".into(),
+        | "-inf" => return "-INFINITY".into(),
+        | s if s.starts_with('"').not() => return rust_literal,
+        | _string => {},
+    }
+    // The escape sequences of Rust that C lacks, or understands otherwise.
+    let mut ret = String::with_capacity(rust_literal.len());
+    let mut rest = &*rust_literal;
+    while let Some((before, escaped)) = rest.split_once('\\') {
+        ret.push_str(before);
+        if let Some((hex, after)) =
+            escaped.strip_prefix("u{").and_then(|it| it.split_once('}'))
+        {
+            let c = u32::from_str_radix(hex, 16).ok().and_then(char::from_u32);
+            for byte in c.unwrap_or_default().encode_utf8(&mut [0; 4]).bytes() {
+                // Always three digits: the characters that follow are not part of it.
+                ret.push_str(&format!("\\{byte:03o}"));
+            }
+            rest = after;
+        } else if let Some(after) = escaped.strip_prefix('0') {
+            ret.push_str("\\000");
+            rest = after;
+        } else {
+            let (same, after) = escaped.split_at(1);
+            ret.push('\\');
+            ret.push_str(same);
+            rest = after;
+        }
+    }
+    ret + rest
+}
-- 
2.43.0


From a39ec8ff9498f618cebd68c283f712c7bdc1b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:07 +0000
Subject: [PATCH 14/20] fix: C# headers write float constants as C# literals

---
 src/headers/languages/csharp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index 77246d2..fb481e7 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -260,8 +260,16 @@ impl HeaderLanguage for CSharp {
         if let _ = indent.scope() {
             self.emit_docs(ctx, docs, indent)?;
             let ty = ty.name(self);
+            let value = match &*format!("{value:?}") {
+                | "NaN" => format!("{ty}.NaN"),
+                | "inf" => format!("{ty}.PositiveInfinity"),
+                | "-inf" => format!("{ty}.NegativeInfinity"),
+                // Without a suffix, C# has it be a `double`.
+                | finite if ty == "float" => format!("{finite}F"),
+                | value => value.to_owned(),
+            };
             out!((
-                "public const {ty} {name} = {value:?};"
+                "public const {ty} {name} = {value};"
             ));
         }
         out!(("}}"));
-- 
2.43.0


From a2375fa677bccacdbde66d7649e27822136ce306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 15/20] fix: headers no longer panic on opaque types with
 nested generics, tuples or function types

---
 src/_lib.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/_lib.rs b/src/_lib.rs
index 61779b1..0724a32 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -616,12 +616,29 @@ mod __ {
             splitter(orig).map_or((orig, None), |(l, r)| (l, Some(r)))
         }
 
+        /// Splits at the `,`s which are not nested within brackets of any kind.
+        fn split_generics (
+            generics: &'_ str,
+        ) -> impl '_ + Iterator<Item = &'_ str>
+        {
+            let (mut depth, mut prev) = (0_u32, ' ');
+            generics.split(move |c: char| {
+                match c {
+                    | '<' | '(' | '[' => depth += 1,
+                    // not that of a `->`.
+                    | '>' if prev == '-' => {},
+                    | '>' | ')' | ']' => depth = depth.saturating_sub(1),
+                    | _ => {},
+                }
+                prev = c;
+                c == ',' && depth == 0
+            })
+        }
+
         let ty_name = ty_name.trim();
         if let Some(tuple_innards) = ty_name.strip_prefix('(') {
             // Tuple
-            tuple_innards
-                .strip_suffix(')').unwrap()
-                .split(',')
+            split_generics(tuple_innards.strip_suffix(')').unwrap())
                 .for_each(|generic| {
                     append_unqualified_name(out, generic);
                 })
@@ -641,7 +658,10 @@ mod __ {
             out.push('_');
             let (mut path, mb_generics) = mb_split_with(
                 ty_name,
-                |s| s.split_once('<'),
+                // Otherwise it is a weird type, such as `fn(Vec<u8>) -> u8`.
+                |s| Some(s.strip_suffix('>')?.split_once('<')?)
+                    .filter(|(path, _)| path.contains('(').not())
+                ,
             );
             let is_valid_for_ident = |c: char| {
                 c.is_alphanumeric() || matches!(c, '_')
@@ -660,8 +680,7 @@ mod __ {
                 });
             }
             if let Some(generics) = mb_generics {
-                let generics = generics.strip_suffix('>').unwrap();
-                generics.split(',').for_each(|generic| {
+                split_generics(generics).for_each(|generic| {
                     append_unqualified_name(out, generic);
                 });
             }
-- 
2.43.0


From 32f48765bf7718f7d6cee49d1213e6becf02c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:51 +0000
Subject: [PATCH 16/20] fix: raw identifiers are exported, and declared in
 headers, without their r#

---
 src/proc_macro/_mod.rs                   | 1 +
 src/proc_macro/derives/c_type/struct_.rs | 4 ++--
 src/proc_macro/derives/repr_c/enum_.rs   | 4 ++--
 src/proc_macro/derives/repr_c/struct_.rs | 4 ++--
 src/proc_macro/ffi_export/const_.rs      | 2 +-
 src/proc_macro/ffi_export/fn_/mod.rs     | 5 +++--
 src/proc_macro/ffi_export/type_.rs       | 2 +-
 7 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/proc_macro/_mod.rs b/src/proc_macro/_mod.rs
index e7e2f79..4ca9628 100644
--- a/src/proc_macro/_mod.rs
+++ b/src/proc_macro/_mod.rs
@@ -24,6 +24,7 @@ use {
         ToTokens,
     },
     ::syn::{*,
+        ext::IdentExt,
         parse::{
             Parse,
             Parser,
diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 5982831..409eee4 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -83,7 +83,7 @@ fn derive (
         ;
         let ref StructName_str =
             args.rename.map_or_else(
-                || StructName.to_string().into_token_stream(),
+                || StructName.unraw().to_string().into_token_stream(),
                 ToTokens::into_token_stream,
             )
         ;
@@ -115,7 +115,7 @@ fn derive (
                 let ref field_docs = utils::extract_docs(&f.attrs)?;
                 let ref field_name_str = f.ident.as_ref().map_or_else(
                     || format!("_{i}"),
-                    Ident::to_string,
+                    |ident| ident.unraw().to_string(),
                 );
                 let FieldTy = &f.ty;
                 quote!(
diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 41feb1f..6af2b07 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -131,13 +131,13 @@ fn derive (
 
         let ref EnumName_str =
             args.rename.map_or_else(
-                || EnumName.to_string().into_token_stream(),
+                || EnumName.unraw().to_string().into_token_stream(),
                 ToTokens::into_token_stream,
             )
         ;
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
-                let ref VariantName_str = v.ident.to_string();
+                let ref VariantName_str = v.ident.unraw().to_string();
                 let discriminant = if let Some((_eq, disc)) = &v.discriminant {
                     // The discriminant has the type of the `enum`'s `repr`,
                     // lest `!0` or `1 << 31` be those of an `i32`.
diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 4ca2143..cb6f3fc 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -131,7 +131,7 @@ fn derive (
         };
 
         let rename = args.rename.unwrap_or_else(|| {
-            let s = StructName.to_string();
+            let s = StructName.unraw().to_string();
             parse_quote!(#s)
         });
 
@@ -473,7 +473,7 @@ fn derive_opaque (
                     #ඞ::From::from(#string_expr)
                 ),
                 | None => {
-                    let ref StructName_str = StructName.to_string();
+                    let ref StructName_str = StructName.unraw().to_string();
                     let EachGenericParam = generics.type_params().map(|p| &p.ident);
                     quote!(
                         let mut _ret =
diff --git a/src/proc_macro/ffi_export/const_.rs b/src/proc_macro/ffi_export/const_.rs
index 93ab257..ba22a42 100644
--- a/src/proc_macro/ffi_export/const_.rs
+++ b/src/proc_macro/ffi_export/const_.rs
@@ -63,7 +63,7 @@ fn handle (
 
 
         let VAR @ _ = &input.ident;
-        let VAR_str @ _ = &VAR.to_string();
+        let VAR_str @ _ = &VAR.unraw().to_string();
         let Ty @ _ = &input.ty;
         let ref each_doc = utils::extract_docs(&input.attrs)?;
         let skip_type = untyped.is_some();
diff --git a/src/proc_macro/ffi_export/fn_/mod.rs b/src/proc_macro/ffi_export/fn_/mod.rs
index d931645..034dacf 100644
--- a/src/proc_macro/ffi_export/fn_/mod.rs
+++ b/src/proc_macro/ffi_export/fn_/mod.rs
@@ -48,7 +48,7 @@ fn handle (
         } else {
             storage.get_or_insert(
                 LitStr::new(
-                    &fun.sig.ident.to_string(),
+                    &fun.sig.ident.unraw().to_string(),
                     fun.sig.ident.span(),
                 )
             )
@@ -356,6 +356,7 @@ fn handle (
             | ReturnType::Type(_, ref ty) => &**ty,
         };
         let ref EachArgTy @ _ = arg_tys(&fun).vec();
+        let each_arg_name = each_arg.iter().map(|it| it.unraw().to_string());
         let each_doc = utils::extract_docs(&fun.attrs)?;
         let (generics, _, where_clause) = fun.sig.generics.split_for_impl();
         ret.extend(quote!(
@@ -396,7 +397,7 @@ fn handle (
                                 &[
                                     #(
                                         #ඞ::FunctionArg {
-                                            name: #ඞ::stringify!(#each_arg),
+                                            name: #each_arg_name,
                                             ty: &#ඞ::PhantomData::<
                                                 #ඞ::CLayoutOf<#EachArgTy>,
                                             >,
diff --git a/src/proc_macro/ffi_export/type_.rs b/src/proc_macro/ffi_export/type_.rs
index 0c8b646..d20cd25 100644
--- a/src/proc_macro/ffi_export/type_.rs
+++ b/src/proc_macro/ffi_export/type_.rs
@@ -18,7 +18,7 @@ fn handle (
             "`where` clauses not allowed here" => clause.where_token,
         }
     }
-    let ref Ty_str @ _ = Ty.to_string();
+    let ref Ty_str @ _ = Ty.unraw().to_string();
     Ok(quote!(
         #input
 
-- 
2.43.0


From 6478c7916e4f8ae21c7f10cee944950ec7f89bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:37 +0000
Subject: [PATCH 17/20] fix: documentation cannot end the comments of C and C#
 headers it is written in

---
 src/headers/languages/c.rs      | 4 +++-
 src/headers/languages/csharp.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 028ff54..077b000 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -21,8 +21,10 @@ impl HeaderLanguage for C {
         }
 
         out!(("/** \\brief"));
-        for line in docs.iter().copied().map(str::trim) {
+        for line in docs.iter().flat_map(|doc| doc.split('\n')).map(str::trim) {
             let sep = if line.is_empty() { "" } else { "  " };
+            // Do not let the docs close the comment: `src/**/*.rs`
+            let line = line.replace("*/", "*\\/");
             out!((" *{sep}{line}"));
         }
         out!((" */"));
diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index fb481e7..30e9002 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -21,7 +21,7 @@ impl HeaderLanguage for CSharp {
         }
 
         out!(("/// <summary>"));
-        for mut line in docs.iter().copied().map(str::trim) {
+        for mut line in docs.iter().flat_map(|doc| doc.split('\n')).map(str::trim) {
             let mut storage = None;
             if line.contains('`') {
                 let s = storage.get_or_insert_with(rust::String::new);
-- 
2.43.0


From bb8ae6a12212f586a79ef39b7bedb74bab22a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:05 +0000
Subject: [PATCH 18/20] fix: instances of a const generic type have distinct
 names in headers

---
 src/proc_macro/derives/c_type/struct_.rs | 9 +++++++++
 src/proc_macro/derives/repr_c/struct_.rs | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 409eee4..86aa299 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -78,6 +78,9 @@ fn derive (
         let EachGenericTy =
             generics.type_params().map(|it| &it.ident)
         ;
+        let EachGenericConst =
+            generics.const_params().map(|it| &it.ident)
+        ;
         let ref EachFieldTy =
             fields.iter().vmap(|Field { ty, .. }| ty)
         ;
@@ -104,6 +107,12 @@ fn derive (
                         ),
                     ).unwrap();
                 )*
+                #(
+                    #ඞ::append_unqualified_name(
+                        &mut _ret,
+                        &#ඞ::format!("{:?}", #EachGenericConst),
+                    );
+                )*
                 _ret
             }
         ));
diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index cb6f3fc..9ed2ede 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -475,6 +475,7 @@ fn derive_opaque (
                 | None => {
                     let ref StructName_str = StructName.unraw().to_string();
                     let EachGenericParam = generics.type_params().map(|p| &p.ident);
+                    let EachGenericConst = generics.const_params().map(|p| &p.ident);
                     quote!(
                         let mut _ret =
                             <#ඞ::String as #ඞ::From<_>>::from(#StructName_str)
@@ -485,6 +486,12 @@ fn derive_opaque (
                                 #ඞ::any::type_name::<#EachGenericParam>(),
                             );
                         )*
+                        #(
+                            #ඞ::append_unqualified_name(
+                                &mut _ret,
+                                &#ඞ::format!("{:?}", #EachGenericConst),
+                            );
+                        )*
                         _ret
                     )
                 },
-- 
2.43.0


From bb69d1e0d47a6750a01f0f3772a2633d27a3df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:26 +0000
Subject: [PATCH 19/20] fix: Python headers give enumerations their values and
 their size

---
 src/headers/languages/python.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/headers/languages/python.rs b/src/headers/languages/python.rs
index 5c10a25..651afa8 100644
--- a/src/headers/languages/python.rs
+++ b/src/headers/languages/python.rs
@@ -24,17 +24,25 @@ impl HeaderLanguage for Python {
         ctx: &'_ mut dyn Definer,
         _docs: Docs<'_>,
         self_ty: &'_ dyn PhantomCType,
-        _backing_integer: Option<&dyn PhantomCType>,
+        backing_integer: Option<&dyn PhantomCType>,
         variants: &'_ [EnumVariant<'_>],
     ) -> io::Result<()>
     {
         let ref indent = Indentation::new(4 /* ctx.indent_width() */);
         mk_out!(indent, ctx.out());
 
+        let ref intn_t =
+            backing_integer.map(|it| it.name(self))
+        ;
+
         let ref short_name = self_ty.short_name();
         let ref full_ty_name = self_ty.name(self);
 
-        out!(("typedef enum {short_name} {{"));
+        if intn_t.is_some() {
+            out!(("enum {short_name} {{"));
+        } else {
+            out!(("typedef enum {short_name} {{"));
+        }
 
         if let _ = indent.scope() {
             for v in variants {
@@ -44,11 +52,22 @@ impl HeaderLanguage for Python {
                     enum_name,
                     v.name,
                 ) */;
-                out!(("{variant_name},"));
+                if let Some(value) = v.discriminant {
+                    out!(("{variant_name} = {value:?},"));
+                } else {
+                    out!(("{variant_name},"));
+                }
             }
         }
 
-        out!(("}} {full_ty_name};"));
+        if let Some(intn_t) = intn_t {
+            out!((
+                "}};"
+                "typedef {intn_t} {full_ty_name};"
+            ));
+        } else {
+            out!(("}} {full_ty_name};"));
+        }
         out!("\n");
         Ok(())
     }
-- 
2.43.0


From 41437b89af369a1631df430ea7afccb8c41c6aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:47 +0000
Subject: [PATCH 20/20] fix: Python headers declare all types in cffi's form,
 wherever first met

---
 src/layout/_mod.rs  | 11 +++++++-
 src/layout/impls.rs | 64 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+), 1 deletion(-)

diff --git a/src/layout/_mod.rs b/src/layout/_mod.rs
index e9f0f5c..65b1792 100644
--- a/src/layout/_mod.rs
+++ b/src/layout/_mod.rs
@@ -129,7 +129,7 @@ impl<T : LegacyCType> CType for T {
                 },
                 #[cfg(feature = "python-headers")]
                 | _case if language.is::<Python>() => {
-                    <Self as LegacyCType>::c_define_self(definer)
+                    <Self as LegacyCType>::python_define_self(definer)
                 },
                 | _ => unimplemented!(),
             }
@@ -405,6 +405,15 @@ unsafe trait LegacyCType
         //     Self::define_self(&C, definer)
         // }
 
+        /// Same as [`LegacyCType::c_define_self`]`()`, but for the definitions
+        /// to be read by Python's `cffi`, which supports no directives.
+        #[cfg(feature = "python-headers")]
+        fn python_define_self (definer: &'_ mut dyn Definer)
+          -> io::Result<()>
+        {
+            Self::c_define_self(definer)
+        }
+
         // #[inline]
         // fn define_self__impl (
         //     language: &'_ dyn HeaderLanguage,
diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 23487b1..00e36d0 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -135,6 +135,30 @@ const _: () = { macro_rules! impl_CTypes {
                 )
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                let ref me = Self::c_var("").to_string();
+                definer.define_once(
+                    me,
+                    &mut |definer| {
+                        Item::define_self(&crate::headers::languages::Python, definer)?;
+                        writeln!(definer.out(),
+                            concat!(
+                                "typedef struct {{\n",
+                                "    {inline_array};\n",
+                                "}} {me};\n",
+                            ),
+                            inline_array = Item::name_wrapping_var(&crate::headers::languages::Python, concat!(
+                                "idx[", stringify!($N), "]",
+                            )),
+                            me = me,
+                        )
+                    }
+                )
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -294,6 +318,16 @@ const _: () = { macro_rules! impl_CTypes {
                 Ok(())
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                Ret::define_self(&crate::headers::languages::Python, definer)?; $(
+                $An::define_self(&crate::headers::languages::Python, definer)?; $(
+                $Ai::define_self(&crate::headers::languages::Python, definer)?; )*)?
+                Ok(())
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -516,6 +550,14 @@ const _: () = { macro_rules! impl_CTypes {
                 Ok(())
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (
+                _: &'_ mut dyn crate::headers::Definer,
+            ) -> io::Result<()>
+            {
+                Ok(())
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -618,6 +660,13 @@ const _: () = { macro_rules! impl_CTypes {
                 T::define_self(&crate::headers::languages::C, definer)
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                T::define_self(&crate::headers::languages::Python, definer)
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -687,6 +736,13 @@ const _: () = { macro_rules! impl_CTypes {
                 T::define_self(&crate::headers::languages::C, definer)
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                T::define_self(&crate::headers::languages::Python, definer)
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -866,6 +922,14 @@ unsafe
                 )
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (
+                _: &'_ mut dyn crate::headers::Definer,
+            ) -> io::Result<()>
+            {
+                Ok(())
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
-- 
2.43.0

