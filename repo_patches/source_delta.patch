From c9568da6bbd4e0431865f426481b4bd1c56f20a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 01/15] fix: use the encoded byte length for the size of
 collection prefixes

The encoders prefix collections with their encoded byte length, but the size
functions calculated the size of the prefix from the element count.
---
 crates/mabo/src/buf/size.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index c697632..2a2d37e 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -73,7 +73,8 @@ pub fn size_vec<T, S>(vec: &[T], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(vec.len() as u64) + vec.iter().map(size).sum::<usize>()
+    let len = vec.iter().map(size).sum::<usize>();
+    size_u64(len as u64) + len
 }
 
 /// Calculate the size of a Mabo `hash_map<K, V>` hash map value.
@@ -82,11 +83,11 @@ where
     SK: Fn(&K) -> usize,
     SV: Fn(&V) -> usize,
 {
-    size_u64(map.len() as u64)
-        + map
-            .iter()
-            .map(|(key, value)| size_key(key) + size_value(value))
-            .sum::<usize>()
+    let len = map
+        .iter()
+        .map(|(key, value)| size_key(key) + size_value(value))
+        .sum::<usize>();
+    size_u64(len as u64) + len
 }
 
 /// Calculate the size of a Mabo `hash_set<T>` hash set value.
@@ -94,7 +95,8 @@ pub fn size_hash_set<T, S>(set: &HashSet<T>, size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(set.len() as u64) + set.iter().map(size).sum::<usize>()
+    let len = set.iter().map(size).sum::<usize>();
+    size_u64(len as u64) + len
 }
 
 /// Calculate the size of a Mabo `option<T>` option value.
@@ -110,7 +112,8 @@ pub fn size_array<const N: usize, T, S>(array: &[T; N], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(N as u64) + array.iter().map(size).sum::<usize>()
+    let len = array.iter().map(size).sum::<usize>();
+    size_u64(len as u64) + len
 }
 
 /// Calculate the size of a Mabo field identifier.
-- 
2.43.0


From 6d1154033c65bd2439879e5661130081ff428040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 02/15] fix: fail to decode arrays with too few elements
 instead of panicking

---
 crates/mabo/src/buf/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index ee6f945..6e2d3d6 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -274,7 +274,8 @@ where
     let mut vec = Vec::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() && vec.len() < N {
+    // decoding fails once the data runs out, in case the old array definition was smaller.
+    while vec.len() < N {
         vec.push(decode(&mut r)?);
     }
 
-- 
2.43.0


From 9b870189e119f14c0142b388cb1e61940d6e856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 03/15] fix: decode integers that span multiple chunks of a
 buffer

Only the first chunk was considered, so that integers crossing the boundary
between two chunks of a non-contiguous buffer failed to decode.
---
 crates/mabo/src/buf/decode.rs | 21 +++++++++++++++++++--
 crates/mabo/src/varint.rs     |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index 6e2d3d6..e716772 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -93,8 +93,25 @@ macro_rules! decode_int {
             /// Will return `Err` if the buffer does not have enough remaining data to read the
             /// value, or the _Varint_ decoding fails due to a missing end marker.
             pub fn [<decode_ $ty>](r: &mut impl Buf) -> Result<$ty> {
-                let (value, consumed) = varint::[<decode_ $ty>](r.chunk())?;
-                r.advance(consumed);
+                let chunk = r.chunk();
+                if chunk.len() >= varint::max_size::<$ty>() || chunk.len() == r.remaining() {
+                    let (value, consumed) = varint::[<decode_ $ty>](chunk)?;
+                    r.advance(consumed);
+                    return Ok(value);
+                }
+
+                // the value might be spread over multiple chunks of a non-contiguous buffer.
+                let mut buf = [0; varint::max_size::<$ty>()];
+                let mut len = 0;
+                while len < buf.len() && r.has_remaining() {
+                    buf[len] = r.get_u8();
+                    len += 1;
+                    if buf[len - 1] & 0x80 == 0 {
+                        break;
+                    }
+                }
+
+                let (value, _) = varint::[<decode_ $ty>](&buf[..len])?;
                 Ok(value)
             }
         }
diff --git a/crates/mabo/src/varint.rs b/crates/mabo/src/varint.rs
index 7f1e165..3323030 100644
--- a/crates/mabo/src/varint.rs
+++ b/crates/mabo/src/varint.rs
@@ -50,7 +50,7 @@ zigzag!(
 
 /// Calculate the maximum amount of bytes that an integer might require to be encoded as _varint_.
 #[inline]
-const fn max_size<T>() -> usize {
+pub(crate) const fn max_size<T>() -> usize {
     (std::mem::size_of::<T>() * 8).div_ceil(7)
 }
 
-- 
2.43.0


From 29efeab6bd11aaf38095a24aedcbd29c69af331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 04/15] fix: stop decoding collections if elements don't
 consume any data

Collections of elements that are encoded as zero bytes would otherwise be decoded
endlessly if the payload claims a length bigger than zero.
---
 crates/mabo/src/buf/decode.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index e716772..21834f6 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -53,6 +53,15 @@ macro_rules! ensure_size {
     };
 }
 
+// Ensure that decoding an element consumed any data, otherwise the decoding would never end.
+macro_rules! ensure_progress {
+    ($r:ident, $remaining:ident) => {
+        if $r.remaining() == $remaining {
+            return Err(Error::InsufficientData);
+        }
+    };
+}
+
 /// Decode a Mabo `bool` (`true` or `false`) value.
 ///
 /// # Errors
@@ -196,7 +205,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let remaining = r.remaining();
         vec.push(decode(&mut r)?);
+        ensure_progress!(r, remaining);
     }
 
     Ok(vec)
@@ -226,7 +237,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let remaining = r.remaining();
         map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
+        ensure_progress!(r, remaining);
     }
 
     Ok(map)
@@ -251,7 +264,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let remaining = r.remaining();
         set.insert(decode(&mut r)?);
+        ensure_progress!(r, remaining);
     }
 
     Ok(set)
@@ -401,7 +416,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let remaining = r.remaining();
         vec.push(decode(&mut r)?);
+        ensure_progress!(r, remaining);
     }
 
     Ok(NonZero::<Vec<_>>::new(vec).unwrap())
@@ -433,7 +450,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let remaining = r.remaining();
         map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
+        ensure_progress!(r, remaining);
     }
 
     Ok(NonZero::<HashMap<_, _>>::new(map).unwrap())
@@ -460,7 +479,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let remaining = r.remaining();
         set.insert(decode(&mut r)?);
+        ensure_progress!(r, remaining);
     }
 
     Ok(NonZero::<HashSet<_>>::new(set).unwrap())
-- 
2.43.0


From 243b90558d61c66e35626dd866c9c7d428e09748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 05/15] fix: resolve types of imported modules

Types that are referenced through an imported module were always reported as
missing, even if found, and nested modules of the import were never considered.
---
 crates/mabo-compiler/src/resolve/mod.rs | 67 +++++++++++--------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4ab3f2a..cbadd37 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -230,21 +230,14 @@ impl Module<'_> {
     }
 
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
-        let module = if ty
-            .path
-            .first()
-            .is_some_and(|(first, _)| first.get() == self.name)
-        {
-            self
-        } else {
-            ty.path.iter().try_fold(self, |module, (name, _)| {
-                module.modules.get(name.get()).ok_or_else(|| MissingModule {
-                    name: name.get().to_owned(),
-                    path: module.path_to_string(),
-                    used: ty.name.span().into(),
-                })
-            })?
-        };
+        // the first segment refers to this (imported) module itself.
+        let module = ty.path.iter().skip(1).try_fold(self, |module, (name, _)| {
+            module.modules.get(name.get()).ok_or_else(|| MissingModule {
+                name: name.get().to_owned(),
+                path: module.path_to_string(),
+                used: ty.name.span().into(),
+            })
+        })?;
 
         let definition = module
             .types
@@ -530,7 +523,7 @@ pub(crate) fn resolve_type_remotely(
     imports: &[ResolvedImport<'_>],
 ) -> Result<(), ResolveError> {
     if imports.is_empty() {
-        return Err(ty.error.into());
+        Err(ty.error.into())
     } else if let Some((name, _)) = ty.external.path.first() {
         let module = imports.iter().find_map(|import| match import {
             ResolvedImport::Module(module) => (module.name == name.get()).then_some(module),
@@ -538,25 +531,23 @@ pub(crate) fn resolve_type_remotely(
         });
 
         match module {
-            Some(module) => module.resolve_remote(ty.external)?,
-            None => {
-                return Err(ResolveRemote::MissingImport(MissingImport {
-                    ty: format!(
-                        "{}{}",
-                        ty.external
-                            .path
-                            .iter()
-                            .fold(String::new(), |mut acc, (part, _)| {
-                                acc.push_str(part.get());
-                                acc.push_str(token::DoubleColon::VALUE);
-                                acc
-                            }),
-                        ty.external.name
-                    ),
-                    used: ty.external.name.span().into(),
-                })
-                .into());
-            }
+            Some(module) => Ok(module.resolve_remote(ty.external)?),
+            None => Err(ResolveRemote::MissingImport(MissingImport {
+                ty: format!(
+                    "{}{}",
+                    ty.external
+                        .path
+                        .iter()
+                        .fold(String::new(), |mut acc, (part, _)| {
+                            acc.push_str(part.get());
+                            acc.push_str(token::DoubleColon::VALUE);
+                            acc
+                        }),
+                    ty.external.name
+                ),
+                used: ty.external.name.span().into(),
+            })
+            .into()),
         }
     } else {
         let found = imports.iter().find_map(|import| match import {
@@ -591,12 +582,10 @@ pub(crate) fn resolve_type_remotely(
             .into());
         }
 
-        return Err(ResolveRemote::MissingImport(MissingImport {
+        Err(ResolveRemote::MissingImport(MissingImport {
             ty: ty.external.name.get().to_owned(),
             used: ty.external.name.span().into(),
         })
-        .into());
+        .into())
     }
-
-    Err(ty.error.into())
 }
-- 
2.43.0


From 91b553fbd3f41564210331cf41a788a479c4223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 06/15] fix: check the types inside of non-zero types as well

Types wrapped in a non_zero<...> were skipped when looking for used generics,
invalid tuples and missing types.
---
 crates/mabo-compiler/src/resolve/mod.rs       | 2 +-
 crates/mabo-compiler/src/validate/generics.rs | 2 +-
 crates/mabo-compiler/src/validate/tuples.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index cbadd37..872aa06 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -466,12 +466,12 @@ fn visit_externals<'a>(value: &'a Type<'_>, visit: &mut impl FnMut(&'a ExternalT
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => {
             visit_externals(ty, visit);
         }
diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 44efd35..40dbc4b 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -162,12 +162,12 @@ fn visit_externals(value: &Type<'_>, visit: &mut impl FnMut(&ExternalType<'_>))
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_externals(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_externals(key, visit);
diff --git a/crates/mabo-compiler/src/validate/tuples.rs b/crates/mabo-compiler/src/validate/tuples.rs
index 439b4bc..7f590dc 100644
--- a/crates/mabo-compiler/src/validate/tuples.rs
+++ b/crates/mabo-compiler/src/validate/tuples.rs
@@ -108,12 +108,12 @@ fn visit_tuples<E>(
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => Ok(()),
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_tuples(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_tuples(key, visit)?;
-- 
2.43.0


From 6818f0fb8584635472ba8f28d7650ee782ebfdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 07/15] fix: avoid an overflow when deriving the next ID from
 the largest possible one

---
 crates/mabo-compiler/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/lib.rs b/crates/mabo-compiler/src/lib.rs
index 5bd1212..23bbde7 100644
--- a/crates/mabo-compiler/src/lib.rs
+++ b/crates/mabo-compiler/src/lib.rs
@@ -49,7 +49,7 @@ impl IdGenerator {
     /// the ID counter might jump forth and back, as long as each ID is guaranteed to be unique.
     fn next(&mut self, id: Option<&mabo_parser::Id>) -> u32 {
         let id = id.map_or(self.next_id, mabo_parser::Id::get);
-        self.next_id = id + 1;
+        self.next_id = id.saturating_add(1);
         id
     }
 
-- 
2.43.0


From ff96ff37dd0e0dd55550f14564e1e16ab876dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 08/15] fix: use the byte slice functions for boxed bytes,
 regardless of the configured bytes type

---
 crates/mabo-build/src/encode.rs | 6 +++++-
 crates/mabo-build/src/size.rs   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 5481f6a..02f4edb 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -216,7 +216,11 @@ fn compile_data_type(
             quote! { ::mabo::FieldEncoding::LengthPrefixed },
             quote! { ::mabo::buf::encode_string(w, #name) },
         ),
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => (
+            quote! { ::mabo::FieldEncoding::LengthPrefixed },
+            quote! { ::mabo::buf::encode_bytes_std(w, #name) },
+        ),
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => (
                 quote! { ::mabo::FieldEncoding::LengthPrefixed },
                 quote! { ::mabo::buf::encode_bytes_std(w, #name) },
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 6543d6c..a0671ba 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -200,7 +200,8 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         Type::String | Type::StringRef | Type::BoxString => {
             quote! { ::mabo::buf::size_string(#name) }
         }
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => quote! { ::mabo::buf::size_bytes_std(#name) },
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => quote! { ::mabo::buf::size_bytes_std(#name) },
             BytesType::Bytes => quote! { ::mabo::buf::size_bytes_bytes(#name) },
         },
-- 
2.43.0


From c26677b2e7a1c6a77d7a23a7abe1bb3ac21fbd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 09/15] fix: generate valid code for options, tuples and
 non-zero integers inside of tuples

---
 crates/mabo-build/src/encode.rs | 14 +++++++++-----
 crates/mabo-build/src/size.rs   | 31 +++++++++++++++++++++++++++----
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 02f4edb..e60f324 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -325,15 +325,19 @@ fn compile_data_type(
             2..=12 => {
                 let encode = types.iter().enumerate().map(|(idx, ty)| {
                     let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx }, false).1
+                    let element = match ty {
+                        // fields and methods of it are accessed, which bind stronger than `&`.
+                        Type::NonZero(_) | Type::Tuple(_) | Type::External(_) => {
+                            quote! { #name.#idx }
+                        }
+                        _ => quote! { &#name.#idx },
+                    };
+                    compile_data_type(opts, ty, element, false).1
                 });
                 (
                     quote! { ::mabo::FieldEncoding::LengthPrefixed },
                     if root {
-                        let size = types.iter().enumerate().map(|(idx, ty)| {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                            super::size::compile_data_type(opts, ty, quote! { &#name.#idx })
-                        });
+                        let size = super::size::compile_tuple_elements(opts, types, &name);
 
                         quote! { ::mabo::buf::encode_tuple(w, || { #(#size)+* }, |w| { #(#encode;)* }) }
                     } else {
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index a0671ba..3625da1 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -244,10 +244,7 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         },
         Type::Tuple(types) => match types.len() {
             2..=12 => {
-                let types = types.iter().enumerate().map(|(idx, ty)| {
-                    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx })
-                });
+                let types = compile_tuple_elements(opts, types, &name);
                 quote! { #(#types)+* }
             }
             n => todo!("compiler should catch invalid tuple with {n} elements"),
@@ -261,3 +258,29 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         }
     }
 }
+
+/// Sizes of all the elements of a tuple.
+pub(crate) fn compile_tuple_elements(
+    opts: &Opts,
+    types: &[Type<'_>],
+    name: &TokenStream,
+) -> Vec<TokenStream> {
+    types
+        .iter()
+        .enumerate()
+        .map(|(idx, ty)| compile_data_type(opts, ty, compile_tuple_element(ty, name, idx)))
+        .collect()
+}
+
+/// Access to a single tuple element. It's only taken by reference if nothing else is applied to the
+/// element by the generated code, as fields and methods bind stronger than the reference operator.
+fn compile_tuple_element(ty: &Type<'_>, name: &TokenStream, idx: usize) -> TokenStream {
+    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
+
+    match ty {
+        Type::Option(_) | Type::NonZero(_) | Type::Tuple(_) | Type::External(_) => {
+            quote! { #name.#idx }
+        }
+        _ => quote! { &#name.#idx },
+    }
+}
-- 
2.43.0


From cbf48d4d611036620790518ef1862b3558b6e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 10/15] fix: resolve types used in type aliases

---
 crates/mabo-compiler/src/resolve/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 872aa06..33fc713 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -370,6 +370,9 @@ pub(crate) fn resolve_module_types<'a>(
                     resolve_fields(missing, &variant.fields, e.generics.as_ref(), module);
                 }
             }
+            Definition::TypeAlias(a) => {
+                resolve(missing, &a.target, a.generics.as_ref(), module);
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 96837b6450fec90a871e0404e7be962d345a99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 11/15] fix: check the type parameters of type aliases

---
 crates/mabo-compiler/src/validate/generics.rs | 33 ++++++++++++++++++-
 crates/mabo-compiler/src/validate/mod.rs      |  1 +
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 40dbc4b..788c911 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -1,6 +1,8 @@
 use std::ops::Range;
 
-use mabo_parser::{DataType, Enum, ExternalType, Fields, Generics, Span, Spanned, Struct, Type};
+use mabo_parser::{
+    DataType, Enum, ExternalType, Fields, Generics, Span, Spanned, Struct, Type, TypeAlias,
+};
 use miette::Diagnostic;
 use rustc_hash::{FxBuildHasher, FxHashMap};
 use thiserror::Error;
@@ -97,6 +99,35 @@ pub fn validate_enum_generics(value: &Enum<'_>) -> Result<(), InvalidGenericType
     })
 }
 
+/// Ensure all generics in a type alias are unique and used.
+pub fn validate_alias_generics(value: &TypeAlias<'_>) -> Result<(), InvalidGenericType> {
+    let Some(generics) = &value.generics else {
+        return Ok(());
+    };
+
+    validate_duplicate_generics(generics)?;
+
+    let mut unvisited = generics
+        .types
+        .values()
+        .map(|g| (g.get(), g.span()))
+        .collect::<FxHashMap<_, _>>();
+
+    visit_externals(&value.target, &mut |external| {
+        if external.path.is_empty() && external.generics.is_none() {
+            unvisited.remove(external.name.get());
+        }
+    });
+
+    unvisited.into_iter().next().map_or(Ok(()), |(name, span)| {
+        Err(UnusedGeneric {
+            name: name.to_owned(),
+            declared: span.into(),
+        }
+        .into())
+    })
+}
+
 /// Ensure all generic type arguments are unique within a struct or enum.
 fn validate_duplicate_generics(value: &Generics<'_>) -> Result<(), DuplicateGenericName> {
     let mut visited = FxHashMap::with_capacity_and_hasher(value.types.len(), FxBuildHasher);
diff --git a/crates/mabo-compiler/src/validate/mod.rs b/crates/mabo-compiler/src/validate/mod.rs
index 73cceba..5622773 100644
--- a/crates/mabo-compiler/src/validate/mod.rs
+++ b/crates/mabo-compiler/src/validate/mod.rs
@@ -91,6 +91,7 @@ fn definition(value: &Definition<'_>) -> Result<(), Error> {
             tuples::validate_enum_tuples(e)?;
         }
         Definition::TypeAlias(a) => {
+            generics::validate_alias_generics(a)?;
             tuples::validate_alias_tuples(a)?;
         }
         Definition::Const(c) => {
-- 
2.43.0


From a2d3701f6c9e9bcab8293eae83c6aa958020be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:02 +0000
Subject: [PATCH 12/15] fix: derive Eq and Hash for NonZero

Non-zero strings, bytes and vectors are valid keys of maps and elements of sets
in a schema, but the generated code for them did not compile.
---
 crates/mabo/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo/src/lib.rs b/crates/mabo/src/lib.rs
index 54b40dd..08c71cb 100644
--- a/crates/mabo/src/lib.rs
+++ b/crates/mabo/src/lib.rs
@@ -138,7 +138,7 @@ macro_rules! include {
 /// as value that are not literally `0` (but those are handled by Rust's built-in `NonZeroN` types
 /// anyway), and collections define this as not being empty, meaning to always contain at least one
 /// element. Similarly for strings, it means they always contain at least one character.
-#[derive(Clone, Debug, PartialEq)]
+#[derive(Clone, Debug, PartialEq, Eq, Hash)]
 pub struct NonZero<T>(T);
 
 impl<T> NonZero<T> {
-- 
2.43.0


From 2d1eaf7aef5164e32e371770c769383911b3b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:02 +0000
Subject: [PATCH 13/15] fix: calculate the wire size of arrays from their
 content

The length prefix counts bytes, not elements, so the reported bounds of arrays
could exclude valid encodings. Huge arrays also overflowed the calculation.
---
 crates/mabo-meta/src/lib.rs | 46 ++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 5836b45..9cc3574 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -145,7 +145,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "option".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .and_then(|max| max.checked_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -154,7 +157,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "non_zero".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .and_then(|max| max.checked_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -167,18 +173,32 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
 }
 
 fn wire_size_array(ty: &Type<'_>, size: u32) -> WireSize {
-    let length = varint_size(size);
     let inner = wire_size(ty);
+    let size = size as usize;
+
+    // The elements are prefixed with the amount of bytes they take up all together.
+    let min = inner
+        .as_ref()
+        .map_or(0, |inner| inner.min)
+        .saturating_mul(size);
+    let max = inner
+        .as_ref()
+        .and_then(|inner| inner.max)
+        .and_then(|max| max.checked_mul(size));
 
     WireSize {
         label: "array".into(),
-        min: length + inner.as_ref().map_or(0, |size| size.min) * size as usize,
-        max: inner
-            .as_ref()
-            .and_then(|size| size.max)
-            .map(|max| length + max * size as usize),
+        min: min.saturating_add(varint_size(min)),
+        max: max.and_then(|max| max.checked_add(varint_size(max))),
         inner: vec![
-            ("length".into(), Some(WireSize::fixed("u64", length))),
+            (
+                "length".into(),
+                Some(WireSize::range(
+                    "u64",
+                    varint_size(min),
+                    varint_size(max.unwrap_or(usize::MAX)),
+                )),
+            ),
             ("element".into(), inner),
         ],
     }
@@ -197,15 +217,15 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
             .iter()
             .filter_map(|(_, size)| size.as_ref())
             .map(|size| size.min)
-            .sum(),
+            .fold(0, usize::saturating_add),
         max: inner
             .iter()
             .map(|(_, size)| size.as_ref().and_then(|s| s.max))
-            .sum(),
+            .fold(Some(0), |sum: Option<usize>, max| sum?.checked_add(max?)),
         inner,
     }
 }
 
-fn varint_size(value: u32) -> usize {
-    ((std::mem::size_of::<u32>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
+fn varint_size(value: usize) -> usize {
+    ((std::mem::size_of::<usize>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
 }
-- 
2.43.0


From f660ee9474fd58851833610390699d4f8e1c5573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:07 +0000
Subject: [PATCH 14/15] fix: refuse field IDs that headers can't represent

The header of a field packs its ID next to the 3-bit encoding marker, and a zero
marks the end of all fields. IDs of zero or above 2^29-1 produced data that
ended early or was taken for another field.
---
 book/src/reference/schema/index.md       |  2 +-
 crates/mabo-compiler/src/validate/ids.rs | 55 ++++++++++++++++++++++++
 crates/mabo-compiler/src/validate/mod.rs |  2 +-
 crates/mabo-lsp/src/handlers/compile.rs  |  4 ++
 4 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/book/src/reference/schema/index.md b/book/src/reference/schema/index.md
index 38ae4e4..ca2d28b 100644
--- a/book/src/reference/schema/index.md
+++ b/book/src/reference/schema/index.md
@@ -159,7 +159,7 @@ Whenever an integer is is explicitly derived, it becomes the source for deriving
 ::: info
 Identifiers don't have to be strictly increasing. They can appear in any order, can jump from different ranges like `1, 100, 5, 200, ...`
 
-The only requirement is that they are unique within a struct or enum variant (for fields), and unique within an enum (for variants).
+The only requirement is that they are unique within a struct or enum variant (for fields), and unique within an enum (for variants). In addition, field identifiers must be in the range of `1` to `536870911`, as the identifier of a field [carries an encoding marker](../wire-format#field-identifiers) on the wire.
 :::
 
 For example, the following schema applies a mix of explicitly defined and derived identifiers on a single struct:
diff --git a/crates/mabo-compiler/src/validate/ids.rs b/crates/mabo-compiler/src/validate/ids.rs
index b772025..b3662c5 100644
--- a/crates/mabo-compiler/src/validate/ids.rs
+++ b/crates/mabo-compiler/src/validate/ids.rs
@@ -50,6 +50,25 @@ pub enum DuplicateFieldId {
     #[error(transparent)]
     #[diagnostic(transparent)]
     Unnamed(#[from] DuplicateUnnamedFieldId),
+    /// Found an ID that collides with others, as it's outside of the possible range.
+    #[error(transparent)]
+    #[diagnostic(transparent)]
+    OutOfRange(#[from] FieldIdOutOfRange),
+}
+
+/// Largest field ID, as the header of a field combines it with the encoding (which takes 3 bits).
+const MAX_FIELD_ID: u32 = 0x1fff_ffff;
+
+/// Field ID that the header of a field can't represent.
+#[derive(Debug, Diagnostic, Error)]
+#[error("field ID {} is out of range", id.get())]
+#[diagnostic(help("the ID of a field must be in the range of 1 to 536870911"))]
+pub struct FieldIdOutOfRange {
+    /// The invalid ID.
+    pub id: Id,
+    /// Source location of the invalid ID.
+    #[label("used here")]
+    pub used: Range<usize>,
 }
 
 /// Duplicate ID for named fields.
@@ -128,8 +147,44 @@ pub(crate) fn validate_enum_ids(value: &Enum<'_>) -> Result<(), DuplicateId> {
         .map_or(Ok(()), Err)
 }
 
+/// Ensure a single field ID is within the range that the header of a field can represent. Zero is
+/// reserved for the marker at the end of all fields.
+fn validate_field_id_range(id: Id) -> Result<(), FieldIdOutOfRange> {
+    if id.get() == 0 || id.get() > MAX_FIELD_ID {
+        return Err(FieldIdOutOfRange {
+            used: id.span().into(),
+            id,
+        });
+    }
+
+    Ok(())
+}
+
+/// Ensure all field IDs of a struct or enum are within the possible range.
+fn validate_field_id_ranges(value: &Fields<'_>) -> Result<(), FieldIdOutOfRange> {
+    let mut id_gen = IdGenerator::new();
+
+    match value {
+        Fields::Named(_, named) => {
+            for field in named.values() {
+                validate_field_id_range(id_gen.next_with_span(field.id.as_ref(), || field.span()))?;
+            }
+        }
+        Fields::Unnamed(_, unnamed) => {
+            for field in unnamed.values() {
+                validate_field_id_range(id_gen.next_with_span(field.id.as_ref(), || field.span()))?;
+            }
+        }
+        Fields::Unit => {}
+    }
+
+    Ok(())
+}
+
 /// Ensure all field IDs of a struct or enum are unique.
 fn validate_field_ids(value: &Fields<'_>) -> Result<(), DuplicateFieldId> {
+    validate_field_id_ranges(value)?;
+
     match value {
         Fields::Named(_, named) => {
             let mut visited = FxHashMap::with_capacity_and_hasher(named.len(), FxBuildHasher);
diff --git a/crates/mabo-compiler/src/validate/mod.rs b/crates/mabo-compiler/src/validate/mod.rs
index 5622773..dd525ba 100644
--- a/crates/mabo-compiler/src/validate/mod.rs
+++ b/crates/mabo-compiler/src/validate/mod.rs
@@ -9,7 +9,7 @@ pub use self::{
     generics::{DuplicateGenericName, InvalidGenericType, UnusedGeneric},
     ids::{
         DuplicateFieldId, DuplicateId, DuplicateNamedFieldId, DuplicateUnnamedFieldId,
-        DuplicateVariantId,
+        DuplicateVariantId, FieldIdOutOfRange,
     },
     names::{DuplicateFieldName, DuplicateName, DuplicateNameInModule, DuplicateVariantName},
     tuples::{InvalidTupleAmount, TupleSize},
diff --git a/crates/mabo-lsp/src/handlers/compile.rs b/crates/mabo-lsp/src/handlers/compile.rs
index 8efe54f..49f942d 100644
--- a/crates/mabo-lsp/src/handlers/compile.rs
+++ b/crates/mabo-lsp/src/handlers/compile.rs
@@ -203,6 +203,10 @@ fn validate_schema_diagnostic(file: Uri, index: &Index, e: validate::Error) -> D
             DuplicateId::Field(e) => match e {
                 DuplicateFieldId::Named(e) => (e.to_string(), e.first, e.second),
                 DuplicateFieldId::Unnamed(e) => (e.to_string(), e.first, e.second),
+                DuplicateFieldId::OutOfRange(e) => {
+                    let message = e.to_string();
+                    return Diagnostic::new_simple(get_range(index, e.used), message);
+                }
             },
         },
         Error::DuplicateName(e) => match e {
-- 
2.43.0


From 267116df759af19789be6adc515095f0c05eb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:13 +0000
Subject: [PATCH 15/15] fix: don't overflow when the largest ID is in use

---
 crates/mabo-lsp/src/handlers/hover.rs | 12 +++++-----
 crates/mabo-meta/src/lib.rs           | 34 +++++++++++++++++----------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/hover.rs b/crates/mabo-lsp/src/handlers/hover.rs
index 9f2eedc..e674ff5 100644
--- a/crates/mabo-lsp/src/handlers/hover.rs
+++ b/crates/mabo-lsp/src/handlers/hover.rs
@@ -81,12 +81,12 @@ fn visit_enum(config: &config::Hover, item: &Enum<'_>, position: usize) -> Optio
         .then(|| {
             let mut text = fold_comment(&item.comment);
 
-            if config.show_next_id {
-                let _ = writeln!(
-                    &mut text,
-                    "- next ID: `{}`",
-                    mabo_meta::next_variant_id(&item.variants)
-                );
+            if let Some(next_id) = config
+                .show_next_id
+                .then(|| mabo_meta::next_variant_id(&item.variants))
+                .flatten()
+            {
+                let _ = writeln!(&mut text, "- next ID: `{next_id}`");
             }
 
             (text, item.source.name.span())
diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 9cc3574..28a6236 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -7,27 +7,35 @@ use std::{borrow::Cow, fmt::Write};
 
 use mabo_compiler::simplify::{FieldKind, Fields, Type, Variant};
 
-/// Get the next free ID for an enum variant.
+/// Largest ID of a field, as the ID is combined with the encoding in a field's header.
+const MAX_FIELD_ID: u32 = 0x1fff_ffff;
+
+/// Get the next free ID for an enum variant, or `None` if the largest possible one is in use already.
 #[must_use]
-pub fn next_variant_id(variants: &[Variant<'_>]) -> u32 {
-    variants.iter().map(|variant| variant.id).max().unwrap_or(0) + 1
+pub fn next_variant_id(variants: &[Variant<'_>]) -> Option<u32> {
+    variants
+        .iter()
+        .map(|variant| variant.id)
+        .max()
+        .unwrap_or(0)
+        .checked_add(1)
 }
 
-/// Get the next free ID for a struct or enum variant field.
+/// Get the next free ID for a struct or enum variant field, or `None` if there are no fields or the
+/// largest possible ID is in use already.
 #[must_use]
 pub fn next_field_id(fields: &Fields<'_>) -> Option<u32> {
     if fields.kind == FieldKind::Unit {
         None
     } else {
-        Some(
-            fields
-                .fields
-                .iter()
-                .map(|field| field.id)
-                .max()
-                .unwrap_or(0)
-                + 1,
-        )
+        let last = fields
+            .fields
+            .iter()
+            .map(|field| field.id)
+            .max()
+            .unwrap_or(0);
+
+        (last < MAX_FIELD_ID).then(|| last + 1)
     }
 }
 
-- 
2.43.0

