From e638bb66b821c6cefe85f88c12151a7f9bc218ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 01/20] fix: do not overflow the position of exhausted type
 reference iterators

---
 src/ast/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/iter.rs b/src/ast/iter.rs
index 127b52f..e424f26 100644
--- a/src/ast/iter.rs
+++ b/src/ast/iter.rs
@@ -61,7 +61,7 @@ impl<Ref: TypeRef> Iterator for IntoIter<Ref> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let ret = self.ty.ty_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         ret.cloned()
     }
 }
@@ -100,7 +100,7 @@ impl<'ty, Ref: TypeRef + 'ty> Iterator for Iter<'ty, Ref> {
     fn next(&mut self) -> Option<Self::Item> {
         let r = self.ty.ty_at(self.pos);
         let item = self.ty.case_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         r.map(|r| (r, item))
     }
 }
-- 
2.43.0


From aff3318b1690bd8e2d7afd94f7e0247ddb692131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 02/20] fix: label tuple fields by their position when
 enumerating type components

---
 src/ast/ty.rs           | 2 +-
 src/layout/translate.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index fb65021..3725b6c 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -330,7 +330,7 @@ impl<Ref: TypeRef> Ty<Ref> {
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-            Ty::Tuple(fields) if fields.len_u8() == pos => Some(ItemCase::UnnamedField(pos)),
+            Ty::Tuple(fields) if pos < fields.len_u8() => Some(ItemCase::UnnamedField(pos)),
             Ty::Array(_, _) if pos == 0 => Some(ItemCase::ArrayItem),
             Ty::List(_, _) if pos == 0 => Some(ItemCase::ListItem),
             Ty::Set(_, _) if pos == 0 => Some(ItemCase::SetItem),
diff --git a/src/layout/translate.rs b/src/layout/translate.rs
index 6637624..b5b80ac 100644
--- a/src/layout/translate.rs
+++ b/src/layout/translate.rs
@@ -47,7 +47,7 @@ impl TypeInfo {
             Some(ItemCase::UnnamedField(pos)) => {
                 if name.as_str() == "_" {
                     comment = fqn;
-                    ident!("{}", pos)
+                    ident!("_{}", pos)
                 } else {
                     name.into_ident()
                 }
-- 
2.43.0


From 822acd7bc7576cb504c2d35c179ebadb3b844f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 03/20] fix: resolve type paths step by step from the root type

---
 src/ast/path.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/path.rs b/src/ast/path.rs
index 3195b5c..7b1fa2b 100644
--- a/src/ast/path.rs
+++ b/src/ast/path.rs
@@ -106,13 +106,13 @@ impl<'ty, Ref: TypeRef> PathError<'ty, Ref> {
 impl<Ref: TypeRef> Ty<Ref> {
     pub fn at_path(&self, path: &Path) -> Result<&Self, PathError<Ref>> {
         let mut ty = self;
-        let mut path = path.clone();
         let mut path_so_far = Path::new();
-        while let Some(step) = path.pop() {
-            let res = match (self, &step) {
+        for step in path {
+            let res = match (ty, step) {
                 (Ty::Struct(fields), Step::NamedField(name)) => fields.ty_by_name(name),
                 (Ty::Union(variants), Step::Variant(name)) => variants.ty_by_name(name),
                 (Ty::Struct(fields), Step::UnnamedField(tag)) => fields.ty_by_pos(*tag),
+                (Ty::Tuple(fields), Step::UnnamedField(pos)) => fields.ty_by_pos(*pos),
                 (Ty::Union(variants), Step::UnnamedField(tag)) => variants.ty_by_tag(*tag),
                 (Ty::Array(ty, _), Step::Index) => Some(ty),
                 (Ty::List(ty, _), Step::List) => Some(ty),
@@ -121,7 +121,7 @@ impl<Ref: TypeRef> Ty<Ref> {
                 (Ty::Map(_, ty, _), Step::MapValue) => Some(ty),
                 (_, _) => None,
             };
-            path_so_far.push(step).expect("confinement collection guarantees");
+            path_so_far.push(step.clone()).expect("confinement collection guarantees");
             ty = res
                 .and_then(|r| r.as_ty())
                 .ok_or_else(|| PathError::new(self, path_so_far.clone()))?
-- 
2.43.0


From 899505f620733a940d32cd2b84a530e76777c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 04/20] fix: report types missing from the system when
 finalizing it

---
 src/typesys/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index 52a2fd2..e5b6cce 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -124,7 +124,7 @@ impl SystemBuilder {
 
         for (sem_id, info) in &self.types {
             for (inner_id, _) in info.ty.type_refs() {
-                if !self.types.contains_key(sem_id) {
+                if !self.types.contains_key(inner_id) {
                     errors.push(Error::InnerTypeAbsent {
                         unknown: *inner_id,
                         known: *sem_id,
-- 
2.43.0


From dcf816e6a857fa6a6f53c859841454d3d8ef3758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 05/20] fix: apply every step of a value path and not just the
 first one

---
 src/value/path.rs | 54 +++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/value/path.rs b/src/value/path.rs
index 8ee3ea3..0b41a47 100644
--- a/src/value/path.rs
+++ b/src/value/path.rs
@@ -164,33 +164,33 @@ impl StrictVal {
         &self,
         path: impl IntoIterator<Item = &'p Step>,
     ) -> Result<&StrictVal, PathError> {
-        let mut iter = path.into_iter();
-        match (self, iter.next()) {
-            (val, None) => Ok(val),
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no)))
-                if *no as usize >= fields.len() =>
-            {
-                Err(PathError::FieldNoOutOfBounds(*no, fields.len()))
-            }
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no))) => Ok(&fields[*no as usize]),
-            (StrictVal::Struct(fields), Some(Step::NamedField(name))) => {
-                fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))
-            }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx)))
-                if *idx as usize >= items.len() =>
-            {
-                Err(PathError::CollectionIndexOutOfBounds(*idx, items.len()))
-            }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx))) => {
-                Ok(&items[*idx as usize])
-            }
-            (StrictVal::Map(items), Some(Step::Key(idx))) => items
-                .iter()
-                .find(|(key, _)| idx.has_match(key))
-                .map(|(_, val)| val)
-                .ok_or(PathError::UnknownKey(idx.clone())),
-
-            (_, Some(step)) => Err(PathError::TypeMismatch(step.clone(), self.clone())),
+        let mut val = self;
+        for step in path {
+            val = match (val, step) {
+                (StrictVal::Tuple(fields), Step::UnnamedField(no)) if *no as usize >= fields.len() => {
+                    return Err(PathError::FieldNoOutOfBounds(*no, fields.len()));
+                }
+                (StrictVal::Tuple(fields), Step::UnnamedField(no)) => &fields[*no as usize],
+                (StrictVal::Struct(fields), Step::NamedField(name)) => {
+                    fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))?
+                }
+                (StrictVal::List(items) | StrictVal::Set(items), Step::Index(idx))
+                    if *idx as usize >= items.len() =>
+                {
+                    return Err(PathError::CollectionIndexOutOfBounds(*idx, items.len()));
+                }
+                (StrictVal::List(items) | StrictVal::Set(items), Step::Index(idx)) => {
+                    &items[*idx as usize]
+                }
+                (StrictVal::Map(items), Step::Key(idx)) => items
+                    .iter()
+                    .find(|(key, _)| idx.has_match(key))
+                    .map(|(_, val)| val)
+                    .ok_or(PathError::UnknownKey(idx.clone()))?,
+
+                (val, step) => return Err(PathError::TypeMismatch(step.clone(), val.clone())),
+            };
         }
+        Ok(val)
     }
 }
-- 
2.43.0


From 35a9e0d08af1ec375c795c8ab3fa4ab382d19e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 06/20] fix: detect undefined types referenced from embedded
 types when building a library

---
 src/typelib/symbolic.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index a41e6ea..d632e2b 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -192,6 +192,29 @@ pub enum TranspileError {
     DependencyMissesType(LibName, SemId, TypeName),
 }
 
+impl Ty<TranspileRef> {
+    /// Finds a name, referenced by the type or by any of the types embedded into it, which is not
+    /// known.
+    pub(super) fn find_unknown(&self, known: &impl Fn(&TypeName) -> bool) -> Option<&TypeName> {
+        for (subty, _) in self.type_refs() {
+            match subty {
+                TranspileRef::Named(name) => {
+                    if !known(name) {
+                        return Some(name);
+                    }
+                }
+                TranspileRef::Embedded(ty) => {
+                    if let Some(name) = ty.find_unknown(known) {
+                        return Some(name);
+                    }
+                }
+                TranspileRef::Extern(_) => {}
+            }
+        }
+        None
+    }
+}
+
 impl LibBuilder {
     pub fn compile_symbols(self) -> Result<SymbolicLib, TranspileError> {
         assert!(
@@ -203,15 +226,11 @@ impl LibBuilder {
             (self.lib_name, self.known_libs, self.extern_types, self.types);
 
         for ty in types.values() {
-            for (subty, _) in ty.type_refs() {
-                if let TranspileRef::Named(name) = subty {
-                    if !types.contains_key(name) {
-                        return Err(TranspileError::UnknownType {
-                            unknown: name.clone(),
-                            within: ty.clone(),
-                        });
-                    }
-                }
+            if let Some(name) = ty.find_unknown(&|name| types.contains_key(name)) {
+                return Err(TranspileError::UnknownType {
+                    unknown: name.clone(),
+                    within: ty.clone(),
+                });
             }
         }
 
-- 
2.43.0


From 451ffda05351e9151caba70a200ebe5cbbfaeb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 07/20] fix: fail compilation of libraries with undefined or
 circular type references

---
 src/typelib/symbolic.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index d632e2b..d0434b2 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -332,7 +332,19 @@ impl SymbolicLib {
                 new_types.insert(name.clone(), ty);
                 old_types.remove(name);
             }
-            debug_assert!(found, "incomplete type definition found in the library");
+            if !found {
+                // Each of the remaining types references a name which is either not defined at all
+                // or defined in circles via other remaining types.
+                for ty in old_types.values() {
+                    if let Some(name) = ty.find_unknown(&|name| index.contains_key(name)) {
+                        return Err(CompileError::UnknownType {
+                            unknown: name.clone(),
+                            within: ty.clone(),
+                        });
+                    }
+                }
+                return Err(CompileError::Continue);
+            }
         }
 
         let mut used_dependencies = BTreeSet::<Dependency>::new();
-- 
2.43.0


From 18f3b51e0b4a87067820c2ad1aa57b452932bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 08/20] fix: refuse to decode unions with repeated variant
 names

Variants with the same name compare as equal, so inserting both into a map
silently replaced one of them: the decoded definition differed from the bytes
it was decoded from.
---
 src/ast/encoding.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index d866d5b..bfa1bfe 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -21,7 +21,7 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::io;
 
 use amplify::confinement::TinyOrdMap;
@@ -56,8 +56,14 @@ impl<Ref: TypeRef> StrictEncode for UnionVariants<Ref> {
 impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
     fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
         let read = TinyOrdMap::<u8, VariantInfo<Ref>>::strict_decode(reader)?;
+        let mut names = BTreeSet::new();
         let mut inner = BTreeMap::new();
         for (tag, info) in read {
+            // Variants having the same name are equal from the map point of view even if their tags
+            // are different, thus one of them will silently replace the other
+            if !names.insert(info.name.clone()) {
+                return Err(DecodeError::RepeatedMapValue);
+            }
             inner.insert(
                 Variant {
                     name: info.name,
-- 
2.43.0


From 58e39a3d843f0949cf6aca73388247ff21590f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 09/20] fix: report too many types in a symbolic library
 instead of panicking

A symbolic library may hold more types than a compiled one.
---
 src/typelib/symbolic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index d0434b2..25135ce 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -363,7 +363,7 @@ impl SymbolicLib {
             }
         }
 
-        let types = TypeMap::from_checked(new_types);
+        let types = TypeMap::try_from(new_types).map_err(|_| CompileError::TooManyTypes)?;
         let dependencies = Confined::from_checked(used_dependencies);
 
         Ok(TypeLib {
-- 
2.43.0


From 81ee263acf9f33b36c1c76aa6fbe2e5751bb4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 10/20] fix: symbolic form of a library which lists as many
 extern types as the limit permits

---
 src/typelib/translate.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/typelib/translate.rs b/src/typelib/translate.rs
index 32b0ea8..a15dfd6 100644
--- a/src/typelib/translate.rs
+++ b/src/typelib/translate.rs
@@ -83,13 +83,7 @@ impl SymbolContext {
             .get(&ext.sem_id)
             .ok_or(SymbolError::UnknownType(ext.sem_id))?
             .clone();
-        let r = SymbolRef::with(lib_name.clone(), ty_name.clone(), ext.lib_id, ext.sem_id);
-        let mut index = builder.remove(lib_name).ok().flatten().unwrap_or_default();
-        index
-            .insert(ext.sem_id, ty_name)
-            .map_err(|_| SymbolError::LibTooLarge(lib_name.clone()))?;
-        builder.insert(lib_name.clone(), index).map_err(|_| SymbolError::TooManyDependencies)?;
-        Ok(TranspileRef::Extern(r))
+        Ok(TranspileRef::Extern(SymbolRef::with(lib_name.clone(), ty_name, ext.lib_id, ext.sem_id)))
     }
 }
 
-- 
2.43.0


From 0a28240542ac4605e5a578e157e1f5c0632bb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 11/20] fix: panic on building a library which uses named
 embedded types

---
 src/typelib/symbolic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index 25135ce..000b379 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -254,6 +254,10 @@ impl LibBuilder {
         let mut type_map = BTreeMap::new();
         for (dep_name, dep_types) in extern_types {
             for (sem_id, type_name) in &dep_types {
+                // embedded types need no dependency providing them
+                if dep_name == libname!(LIB_EMBEDDED) {
+                    continue;
+                }
                 let Some(dependency_types) = used_dependencies
                     .get(&dep_name)
                     .and_then(|dep| known_libs.get(dep))
-- 
2.43.0


From 6a0be0f6b1d814aa90f3b966f7319d40d9eb51a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 12/20] fix: check width and sign of numbers against the
 primitive type

---
 src/value/typify.rs | 66 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 177505c..53c24b8 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -117,13 +117,34 @@ trait PrimitiveValue {
     fn is_large_unsigned(&self) -> bool;
     fn is_small_signed(&self) -> bool;
     fn is_large_signed(&self) -> bool;
+    fn fits_uint(&self, val: u64) -> bool;
+    fn fits_int(&self, val: i64) -> bool;
+    fn fits_bits(&self, bits: usize) -> bool;
 }
 
 impl PrimitiveValue for Primitive {
-    fn is_small_unsigned(&self) -> bool { self.into_code() <= 16 }
-    fn is_large_unsigned(&self) -> bool { self.into_code() > 16 && self.into_code() < 0x40 }
-    fn is_small_signed(&self) -> bool { self.into_code() >= 0x40 && self.into_code() <= 0x4f }
-    fn is_large_signed(&self) -> bool { self.into_code() > 0x4f && self.into_code() < 0x80 }
+    // Numbers which take up to 8 bytes
+    fn is_small_unsigned(&self) -> bool {
+        *self == Primitive::BYTE || matches!(self.into_code(), 0x01..=0x08)
+    }
+    // Numbers which take from 9 to 128 bytes
+    fn is_large_unsigned(&self) -> bool {
+        matches!(self.into_code(), 0x09..=0x3f) && self.byte_size() <= 128
+    }
+    fn is_small_signed(&self) -> bool { matches!(self.into_code(), 0x41..=0x48) }
+    fn is_large_signed(&self) -> bool {
+        matches!(self.into_code(), 0x49..=0x7f) && self.byte_size() <= 128
+    }
+
+    fn fits_uint(&self, val: u64) -> bool {
+        let bits = self.byte_size() as u32 * 8;
+        bits >= u64::BITS || val >> bits == 0
+    }
+    fn fits_int(&self, val: i64) -> bool {
+        let bits = self.byte_size() as u32 * 8;
+        bits >= i64::BITS || val >> (bits - 1) == 0 || val >> (bits - 1) == -1
+    }
+    fn fits_bits(&self, bits: usize) -> bool { bits <= self.byte_size() as usize * 8 }
 }
 
 impl SymbolicSys {
@@ -170,28 +191,45 @@ impl TypeSystem {
                 StrictVal::Unit
             }
 
-            (val @ StrictVal::Number(StrictNum::Uint(_)), Ty::Primitive(prim))
-                if prim.is_small_unsigned() =>
+            (val @ StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_small_unsigned() && prim.fits_uint(num) =>
             {
                 val
             }
-            (StrictVal::Number(StrictNum::Uint(val)), Ty::Primitive(prim))
-                if prim.is_small_signed() && (val & 0x8000_0000_0000_0000) == 0 =>
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() =>
+            {
+                StrictVal::Number(StrictNum::BigUint(num.into()))
+            }
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_small_signed()
+                    && (num & 0x8000_0000_0000_0000) == 0
+                    && prim.fits_int(num as i64) =>
             {
-                StrictVal::Number(StrictNum::Int(val as i64))
+                StrictVal::Number(StrictNum::Int(num as i64))
             }
-            (val @ StrictVal::Number(StrictNum::BigUint(_)), Ty::Primitive(prim))
-                if prim.is_large_unsigned() =>
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_large_signed() && (num & 0x8000_0000_0000_0000) == 0 =>
+            {
+                StrictVal::Number(StrictNum::BigInt((num as i64).into()))
+            }
+            (val @ StrictVal::Number(StrictNum::BigUint(num)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() && prim.fits_bits(num.bits_required()) =>
             {
                 val
             }
-            (val @ StrictVal::Number(StrictNum::Int(_)), Ty::Primitive(prim))
-                if prim.is_small_signed() =>
+            (val @ StrictVal::Number(StrictNum::Int(num)), Ty::Primitive(prim))
+                if prim.is_small_signed() && prim.fits_int(num) =>
             {
                 val
             }
-            (val @ StrictVal::Number(StrictNum::BigInt(_)), Ty::Primitive(prim))
+            (StrictVal::Number(StrictNum::Int(num)), Ty::Primitive(prim))
                 if prim.is_large_signed() =>
+            {
+                StrictVal::Number(StrictNum::BigInt(num.into()))
+            }
+            (val @ StrictVal::Number(StrictNum::BigInt(num)), Ty::Primitive(prim))
+                if prim.is_large_signed() && prim.fits_bits(num.bits_required()) =>
             {
                 val
             }
-- 
2.43.0


From 370e9ee00a4129ab552a915f733b625e910d295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 13/20] fix: check exact length, item types and character sets
 of arrays and strings

---
 src/typesys/type_sys.rs | 28 ++++++++++++++++++++++++++--
 src/value/typify.rs     | 34 ++++++++++++++++++++--------------
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index 662e746..d4a54b9 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -161,8 +161,8 @@ impl TypeSystem {
         let rest = self.find(rest).ok_or(UnknownType(rest))?;
         if let Ty::List(rest, sizing) = rest {
             let mut sizing = *sizing;
-            sizing.min += 1;
-            sizing.max += 1;
+            sizing.min = sizing.min.saturating_add(1);
+            sizing.max = sizing.max.saturating_add(1);
             return Ok(Some((*rest, sizing)));
         }
         Ok(None)
@@ -180,6 +180,30 @@ impl TypeSystem {
         Ok(self.find(first).ok_or(UnknownType(first))?.is_char_enum()
             && self.find(rest).ok_or(UnknownType(rest))?.is_char_enum())
     }
+
+    /// Checks that a string can be represented as a sequence of the tags of an enumeration.
+    pub(crate) fn is_made_of(&self, string: &[u8], char_id: SemId) -> bool {
+        let Some(Ty::Enum(variants)) = self.find(char_id) else {
+            return false;
+        };
+        string.is_ascii() && string.iter().all(|ch| variants.has_tag(*ch))
+    }
+
+    /// Checks that a string belongs to a restricted string type with the given structure.
+    pub(crate) fn is_rstring_val(&self, string: &str, fields: &UnnamedFields<SemId>) -> bool {
+        if !matches!(self.is_rstring(fields), Ok(true)) {
+            return false;
+        }
+        let Ok(Some((rest_id, sizing))) = self.rstring_sizing(fields) else {
+            return false;
+        };
+        let Some((first, rest)) = string.as_bytes().split_first() else {
+            return false;
+        };
+        sizing.check(string.len())
+            && self.is_made_of(&[*first], fields[0])
+            && self.is_made_of(rest, rest_id)
+    }
 }
 
 impl Index<SemId> for TypeSystem {
diff --git a/src/value/typify.rs b/src/value/typify.rs
index 53c24b8..ee25adc 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -23,7 +23,7 @@
 
 //! Checks strict values against provied strict type specification.
 
-use amplify::ascii::{AsAsciiStrError, AsciiString};
+use amplify::ascii::AsAsciiStrError;
 use amplify::confinement::NonEmptyOrdSet;
 use amplify::Wrapper;
 use encoding::{FieldName, InvalidRString, Primitive, Sizing, VariantName};
@@ -236,19 +236,14 @@ impl TypeSystem {
 
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
-                if id.is_byte() && s.len() > *len as usize =>
+                if id.is_byte() && s.len() != *len as usize =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::String(s), Ty::Array(id, len))
-                if id.is_unicode_char() && s.len() > *len as usize =>
-            {
-                return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
-            }
-            (StrictVal::String(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::String(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::List(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::List(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
@@ -278,13 +273,25 @@ impl TypeSystem {
             }
 
             (val @ StrictVal::Bytes(_), Ty::Array(id, _)) if id.is_byte() => val,
-            (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
+            (StrictVal::String(s), Ty::Array(id, _)) if id.is_byte() => {
+                StrictVal::Bytes(Blob(s.into_bytes()))
+            }
+            (StrictVal::String(s), Ty::Array(id, _))
+                if (id.is_unicode_char() && s.is_ascii()) || self.is_made_of(s.as_bytes(), *id) =>
+            {
                 StrictVal::String(s)
             }
-            (val @ StrictVal::List(_), Ty::Array(_, _)) => val,
+            (StrictVal::List(s), Ty::Array(id, _)) => {
+                let mut new = Vec::with_capacity(s.len());
+                for item in s {
+                    let checked = self.typify(item, *id)?;
+                    new.push(checked.val);
+                }
+                StrictVal::List(new)
+            }
 
             // RString
-            (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
+            (StrictVal::String(s), Ty::Tuple(fields)) if self.is_rstring_val(&s, fields) => {
                 /* Invalid: we need to preserve string structure
                 let first = fields.first().expect("checked length");
                 let rest = fields.last().expect("checked length");
@@ -302,8 +309,7 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::List(id, _)) if id.is_byte() => {
                 StrictVal::Bytes(Blob(s.into_bytes()))
             }
-            (StrictVal::String(s), Ty::List(_, _)) if s.is_ascii() => {
-                AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
+            (StrictVal::String(s), Ty::List(id, _)) if self.is_made_of(s.as_bytes(), *id) => {
                 StrictVal::String(s)
             }
             (StrictVal::List(s), Ty::List(id, _)) => {
-- 
2.43.0


From 2b27f148c3fde4dc52386da967774db37ded77d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 14/20] fix: check completeness of tuples, structures and
 options

---
 src/value/typify.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index ee25adc..a67ac5d 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -263,7 +263,8 @@ impl TypeSystem {
 
             // Ascii or other sub-byte character
             (StrictVal::String(s), Ty::Enum(en)) if s.len() == 1 && en.has_tag(s.as_bytes()[0]) => {
-                StrictVal::String(s)
+                let name = en.name_by_tag(s.as_bytes()[0]).expect("checked tag");
+                StrictVal::enumer(name.clone())
             }
             // Unicode character
             (StrictVal::String(s), ty @ Ty::UnicodeChar)
@@ -391,7 +392,7 @@ impl TypeSystem {
             }
 
             // Field count check:
-            (StrictVal::Tuple(fields), Ty::Tuple(fields_req))
+            (StrictVal::Tuple(fields) | StrictVal::List(fields), Ty::Tuple(fields_req))
                 if fields.len() != fields_req.len() =>
             {
                 return Err(Error::FieldNumberMismatch {
@@ -410,8 +411,19 @@ impl TypeSystem {
                 });
             }
 
+            (StrictVal::Map(fields), Ty::Struct(fields_req)) if fields.len() != fields_req.len() => {
+                return Err(Error::FieldNumberMismatch {
+                    spec,
+                    expected: fields_req.len(),
+                    found: fields.len(),
+                });
+            }
+
             // Check specific field types:
-            (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req)) => {
+            (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req))
+                // Restricted strings have no tuple representation
+                if !matches!(self.is_rstring(fields_req), Ok(true)) =>
+            {
                 let mut new = Vec::with_capacity(s.len());
                 for (item, id) in s.into_iter().zip(fields_req) {
                     let checked = self.typify(item, *id)?;
@@ -441,22 +453,29 @@ impl TypeSystem {
                         return Err(Error::ExtraField(fname));
                     };
                     let checked = self.typify(item, *field)?;
+                    if new.contains_key(&fname) {
+                        return Err(Error::RepeatedKeyValue(spec, StrictVal::str(fname)));
+                    }
                     new.insert(fname, checked.val);
                 }
                 StrictVal::Struct(new)
             }
 
             // Optional
-            (StrictVal::Unit, ty @ Ty::Union(_)) if ty.is_option() => {
+            (StrictVal::Unit, ty @ Ty::Union(fields)) if ty.is_option() => {
                 // this is `None`
-                StrictVal::union("none", ())
+                let none = *fields.ty_by_tag(0).expect("optional always have `None`");
+                let inner = self.typify(StrictVal::Unit, none)?.val;
+                StrictVal::union("none", inner)
             }
             (StrictVal::Tuple(mut tuple), ty @ Ty::Union(fields))
                 if ty.is_option() && tuple.len() == 2 =>
             {
                 let content = *fields.ty_by_tag(1).expect("optional always have `Some`");
                 if tuple[0] == StrictVal::String(s!("none")) && tuple[1] == StrictVal::Unit {
-                    StrictVal::union("none", StrictVal::Unit)
+                    let none = *fields.ty_by_tag(0).expect("optional always have `None`");
+                    let inner = self.typify(StrictVal::Unit, none)?.val;
+                    StrictVal::union("none", inner)
                 } else if tuple[0] == StrictVal::String(s!("some")) {
                     let inner = self.typify(tuple.pop().expect("two elements"), content)?.val;
                     StrictVal::union("some", inner)
-- 
2.43.0


From dd9233538e2f48a3c4d473accf59fcacbf94310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 15/20] fix: serialize fixed-size arrays of items other than
 bytes

---
 src/value/encode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 06c4a48..58e3308 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -147,6 +147,13 @@ impl TypeSystem {
                 writer.write_all(s.as_bytes())?;
             }
 
+            (StrictVal::List(list), Ty::Array(sem_id, len)) => {
+                debug_assert_eq!(list.len(), *len as usize);
+                for val in list {
+                    self.strict_write_val(val, *sem_id, writer)?;
+                }
+            }
+
             (StrictVal::Tuple(vals), Ty::Tuple(fields)) => {
                 debug_assert_eq!(vals.len(), fields.len());
                 for (val, sem_id) in vals.iter().zip(fields) {
-- 
2.43.0


From 7970da9eeaecf6fa975f9e5b2392ad8ab7809ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 16/20] fix: resolve the unit type when it is not listed in the
 type system

---
 src/value/encode.rs |  6 +-----
 src/value/typify.rs | 10 +++++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 58e3308..a310225 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -94,11 +94,7 @@ impl TypeSystem {
         sem_id: SemId,
         writer: &mut impl io::Write,
     ) -> Result<(), io::Error> {
-        let ty = if sem_id == SemId::unit() {
-            &Ty::UNIT
-        } else {
-            self.find(sem_id).expect("typified with some other TypeSystem")
-        };
+        let ty = self.find(sem_id).expect("typified with some other TypeSystem");
         self.strict_write_ty(val, ty, writer)
     }
 
diff --git a/src/value/typify.rs b/src/value/typify.rs
index a67ac5d..580e743 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -157,16 +157,16 @@ impl SymbolicSys {
 
 impl TypeSystem {
     pub fn find(&self, sem_id: SemId) -> Option<&Ty<SemId>> {
+        // The unit type is not required to be listed in the type system
+        if sem_id == SemId::unit() {
+            return Some(&Ty::UNIT);
+        }
         self.as_inner().iter().find(|(my_id, _)| **my_id == sem_id).map(|(_, ty)| ty)
     }
 
     pub fn typify(&self, val: StrictVal, sem_id: SemId) -> Result<TypedVal, Error> {
         let spec = TypeSpec::from(sem_id);
-        let ty = if sem_id == SemId::unit() {
-            &Ty::UNIT
-        } else {
-            self.find(sem_id).ok_or_else(|| Error::TypeAbsent(spec.clone()))?
-        };
+        let ty = self.find(sem_id).ok_or_else(|| Error::TypeAbsent(spec.clone()))?;
         let val = match (val, ty) {
             // Primitive direct matches:
             (val @ StrictVal::Unit, Ty::Primitive(prim)) if *prim == Primitive::UNIT => val,
-- 
2.43.0


From 6713a6a78543dc6ddb74894cd4f51dbce250ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 17/20] fix: detect repeated set values and map keys in
 different representations

---
 src/value/encode.rs | 7 +++++++
 src/value/typify.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index a310225..2f7b394 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -88,6 +88,13 @@ impl TypeSystem {
         self.strict_write_val(&typed.val, typed.orig.id, writer)
     }
 
+    /// Serialization of a value typified with the type system.
+    pub(super) fn val_bytes(&self, val: &StrictVal, sem_id: SemId) -> Vec<u8> {
+        let mut buf = Vec::new();
+        self.strict_write_val(val, sem_id, &mut buf).expect("in-memory writing doesn't fail");
+        buf
+    }
+
     fn strict_write_val(
         &self,
         val: &StrictVal,
diff --git a/src/value/typify.rs b/src/value/typify.rs
index 580e743..57746b1 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -23,6 +23,8 @@
 
 //! Checks strict values against provied strict type specification.
 
+use std::collections::BTreeSet;
+
 use amplify::ascii::AsAsciiStrError;
 use amplify::confinement::NonEmptyOrdSet;
 use amplify::Wrapper;
@@ -323,9 +325,11 @@ impl TypeSystem {
             }
             (StrictVal::Set(s), Ty::Set(id, _)) => {
                 let mut new = Vec::with_capacity(s.len());
+                // The same value may have several representations
+                let mut seen = BTreeSet::new();
                 for item in s {
                     let checked = self.typify(item, *id)?;
-                    if new.contains(&checked.val) {
+                    if !seen.insert(self.val_bytes(&checked.val, *id)) {
                         return Err(Error::RepeatedSetValue(spec, checked.val));
                     }
                     new.push(checked.val);
@@ -334,10 +338,11 @@ impl TypeSystem {
             }
             (StrictVal::Map(s), Ty::Map(key_id, id, _)) => {
                 let mut new = Vec::<(StrictVal, StrictVal)>::with_capacity(s.len());
+                let mut seen = BTreeSet::new();
                 for (key, item) in s {
                     let checked_key = self.typify(key, *key_id)?;
                     let checked_val = self.typify(item, *id)?;
-                    if new.iter().any(|(k, _)| k == &checked_key.val) {
+                    if !seen.insert(self.val_bytes(&checked_key.val, *key_id)) {
                         return Err(Error::RepeatedKeyValue(spec, checked_key.val));
                     }
                     new.push((checked_key.val, checked_val.val));
-- 
2.43.0


From 1f6df4bd794921c46dec5b91f7a50fd6e5668928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 18/20] fix: panics and aborts on deserialization of crafted
 data

---
 src/value/decode.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index cf1aa04..751cda1 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -25,9 +25,8 @@
 
 use amplify::ascii::AsciiString;
 use amplify::confinement::{
-    Confined, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString,
-    SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16,
-    U32 as MAX32,
+    self, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString, SmallAscii,
+    SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16, U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
 use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
@@ -88,7 +87,8 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<StrictVal>, Error> {
-        let mut list = Vec::with_capacity(len);
+        // The length comes from an untrusted source and must not be used for allocation
+        let mut list = Vec::new();
         for _ in 0..len {
             let item = self.strict_read_type(ty, d)?;
             list.push(item.val);
@@ -103,7 +103,8 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<(StrictVal, StrictVal)>, Error> {
-        let mut list = Vec::with_capacity(len);
+        // The length comes from an untrusted source and must not be used for allocation
+        let mut list = Vec::new();
         for _ in 0..len {
             let key = self.strict_read_type(key_ty, d)?;
             let item = self.strict_read_type(ty, d)?;
@@ -112,6 +113,18 @@ impl TypeSystem {
         Ok(list)
     }
 
+    fn strict_read_ascii(&self, len: u64, d: &mut impl ReadRaw) -> Result<String, Error> {
+        // Larger allocations must not be done for the length coming from an untrusted source
+        if len > u32::MAX as u64 {
+            let (len, max_len) = (len as usize, MAX32);
+            return Err(DecodeError::from(confinement::Error::Oversize { len, max_len }).into());
+        }
+        let buf = d.read_raw::<MAX32>(len as usize).map_err(DecodeError::from)?;
+        let string =
+            AsciiString::from_ascii(buf).map_err(|err| DecodeError::from(err.ascii_error()))?;
+        Ok(string.to_string())
+    }
+
     pub fn strict_deserialize_type(&self, sem_id: SemId, data: &[u8]) -> Result<TypedVal, Error> {
         let mut cursor = StreamReader::cursor::<MAX32>(data);
         let ty = self.strict_read_type(sem_id, &mut cursor)?;
@@ -159,7 +172,9 @@ impl TypeSystem {
                 }
             }
             Ty::UnicodeChar => {
-                todo!()
+                return Err(Error::NotImplemented(s!(
+                    "loading unicode character into a typed value is not yet implemented"
+                )));
             }
 
             // ASCII strings:
@@ -178,12 +193,9 @@ impl TypeSystem {
                 } else if sizing.max <= u32::MAX as u64 {
                     StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    let len = u64::strict_decode(&mut reader)?;
+                    d = reader.unbox();
+                    StrictVal::String(self.strict_read_ascii(len, d)?)
                 }
             }
             // Restricted strings:
@@ -198,12 +210,9 @@ impl TypeSystem {
                 } else if sizing.max <= u32::MAX as u64 {
                     StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    let len = u64::strict_decode(&mut reader)?;
+                    d = reader.unbox();
+                    StrictVal::String(self.strict_read_ascii(len, d)?)
                 }
             }
 
-- 
2.43.0


From aaa14fcc1c409c437abd5562da6e1b9c24e57ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 19/20] fix: check bounds, character sets and uniqueness on
 deserialization

---
 src/value/decode.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 751cda1..31cb3ef 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -23,13 +23,15 @@
 
 //! Reification module: reads & writes strict values from binary strict encodings.
 
+use std::collections::BTreeSet;
+
 use amplify::ascii::AsciiString;
 use amplify::confinement::{
     self, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString, SmallAscii,
     SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16, U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
-use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
+use encoding::{DecodeError, Primitive, ReadRaw, Sizing, StreamReader, StrictDecode, StrictReader};
 use indexmap::IndexMap;
 
 use crate::typesys::{SymbolicSys, TypeSymbol, UnknownType};
@@ -396,11 +398,65 @@ impl TypeSystem {
             }
         };
 
+        self.check_read(&val, ty)?;
+
         Ok(TypedVal {
             val,
             orig: TypeSymbol::unnamed(sem_id),
         })
     }
+
+    /// Checks that a value which was read respects the restrictions put by its type.
+    fn check_read(&self, val: &StrictVal, ty: &Ty<SemId>) -> Result<(), DecodeError> {
+        match (val, ty) {
+            (StrictVal::String(s), Ty::List(id, sizing)) => {
+                check_len(s.len(), sizing)?;
+                if !id.is_unicode_char() && !self.is_made_of(s.as_bytes(), *id) {
+                    return Err(DecodeError::DataIntegrityError(format!(
+                        "string '{s}' contains characters which do not belong to its type"
+                    )));
+                }
+            }
+            (StrictVal::String(s), Ty::Tuple(fields)) if !self.is_rstring_val(s, fields) => {
+                return Err(DecodeError::DataIntegrityError(format!(
+                    "string '{s}' doesn't belong to its restricted string type"
+                )));
+            }
+            (StrictVal::Bytes(s), Ty::List(_, sizing)) => check_len(s.len(), sizing)?,
+            (StrictVal::List(items), Ty::List(_, sizing)) => check_len(items.len(), sizing)?,
+            (StrictVal::Set(items), Ty::Set(id, sizing)) => {
+                check_len(items.len(), sizing)?;
+                let mut seen = BTreeSet::new();
+                for item in items {
+                    if !seen.insert(self.val_bytes(item, *id)) {
+                        return Err(DecodeError::RepeatedSetValue);
+                    }
+                }
+            }
+            (StrictVal::Map(items), Ty::Map(key_id, _, sizing)) => {
+                check_len(items.len(), sizing)?;
+                let mut seen = BTreeSet::new();
+                for (key, _) in items {
+                    if !seen.insert(self.val_bytes(key, *key_id)) {
+                        return Err(DecodeError::RepeatedMapValue);
+                    }
+                }
+            }
+            _ => {}
+        }
+        Ok(())
+    }
+}
+
+fn check_len(len: usize, sizing: &Sizing) -> Result<(), confinement::Error> {
+    let (min_len, max_len) = (sizing.min as usize, sizing.max as usize);
+    if len < min_len {
+        return Err(confinement::Error::Undersize { len, min_len });
+    }
+    if len > max_len {
+        return Err(confinement::Error::Oversize { len, max_len });
+    }
+    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5ad0c49f9d51e462bf3457b780338c9b225b5ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 20/20] fix: panic on deserialization of a reserved primitive

---
 src/value/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 31cb3ef..24fec1e 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -168,7 +168,7 @@ impl TypeSystem {
                     // Primitive::I128 => StrictVal::num(i128::strict_decode(&mut reader)?),
                     other => {
                         return Err(Error::NotImplemented(format!(
-                            "loading {other} into a typed value is not yet implemented"
+                            "loading {other:?} into a typed value is not yet implemented"
                         )));
                     }
                 }
-- 
2.43.0

