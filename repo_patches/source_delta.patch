From 568a76bd473fa6e935b3f9b5a24d90a0b6eaeac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 01/14] fix: read the variant name of an internally tagged enum
 as a string

It is written as a string key of the map, but was read with
deserialize_identifier, which formats that are not self-describing reject
or read as an integer.
---
 src/internally.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internally.rs b/src/internally.rs
index 84f865b..d92848f 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -510,7 +510,7 @@ where
     where
         V: DeserializeSeed<'de>,
     {
-        match self.map.next_key_seed(seed)? {
+        match self.map.next_key_seed(StringKeySeed { seed })? {
             Some(variant) => Ok((variant, self)),
             None => Err(de::Error::custom(format_args!(
                 "expected enum {}",
-- 
2.43.0


From 4bd351475076c5541a5d5407fb942b08a6ee74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 02/14] fix: read the keys of an internally tagged map the way
 their type asks for

Every key was read with deserialize_str. Formats that convert the keys of a
map, such as JSON, never got to see that an integer was asked for, and
formats that are not self-describing read a string where something else had
been written.
---
 src/internally.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index d92848f..389299e 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -623,6 +623,19 @@ struct StringKeyDeserializer<D> {
     delegate: D,
 }
 
+macro_rules! deserialize_key {
+    ($($method:ident($($k:ident : $ty:ty),*))*) => {
+        $(
+            fn $method<V>(self, $($k: $ty,)* visitor: V) -> Result<V::Value, Self::Error>
+            where
+                V: Visitor<'de>,
+            {
+                self.delegate.$method($($k,)* visitor)
+            }
+        )*
+    };
+}
+
 impl<'de, D> Deserializer<'de> for StringKeyDeserializer<D>
 where
     D: Deserializer<'de>,
@@ -636,10 +649,41 @@ where
         self.delegate.deserialize_str(visitor)
     }
 
+    // Names of fields and variants are strings. Any other key is read the way
+    // its type asks for.
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
+        identifier ignored_any
+    }
+
+    deserialize_key! {
+        deserialize_bool()
+        deserialize_i8()
+        deserialize_i16()
+        deserialize_i32()
+        deserialize_i64()
+        deserialize_i128()
+        deserialize_u8()
+        deserialize_u16()
+        deserialize_u32()
+        deserialize_u64()
+        deserialize_u128()
+        deserialize_f32()
+        deserialize_f64()
+        deserialize_char()
+        deserialize_str()
+        deserialize_string()
+        deserialize_bytes()
+        deserialize_byte_buf()
+        deserialize_option()
+        deserialize_unit()
+        deserialize_unit_struct(name: &'static str)
+        deserialize_newtype_struct(name: &'static str)
+        deserialize_seq()
+        deserialize_tuple(len: usize)
+        deserialize_tuple_struct(name: &'static str, len: usize)
+        deserialize_map()
+        deserialize_struct(name: &'static str, fields: &'static [&'static str])
+        deserialize_enum(name: &'static str, variants: &'static [&'static str])
     }
 }
 
-- 
2.43.0


From 3c5fa34f0c9cb80ed51341a5878718715c450ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 03/14] fix: read buffered entries the same way as entries that
 follow the tag

With the tag after the content, or absent and defaulted, the entries of an
internally tagged object were handed over as a plain map, so that an impl
written under the "value" key could not be read back.
---
 src/internally.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index 389299e..3512cfb 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -7,9 +7,9 @@ use alloc::boxed::Box;
 use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
+use serde::de::value::MapDeserializer;
 use serde::de::{
-    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess,
-    VariantAccess, Visitor,
+    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, VariantAccess, Visitor,
 };
 use serde::forward_to_deserialize_any;
 use serde::ser::{Serialize, Serializer};
@@ -121,8 +121,11 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         };
 
         let fn_apply = FnApply { deserialize_fn };
-        let content = Content::Map(entries).into_deserializer();
-        fn_apply.deserialize(content)
+        let mut map = MapDeserializer::new(entries.into_iter());
+        let rest = MapWithStringKeys { map: &mut map };
+        let object = fn_apply.deserialize(rest)?;
+        map.end()?;
+        Ok(object)
     }
 }
 
-- 
2.43.0


From bd59a6142d090d2e0e2475e75c0310e769287aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 04/14] fix: keep keys borrowed from the input when buffering
 entries

An impl whose keys borrow from the input could only be read when the tag
came first.
---
 src/internally.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index 3512cfb..a8224eb 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -4,9 +4,9 @@ use crate::private::Registry;
 use crate::ser::{InternallyTaggedSerializer, Wrap};
 use alloc::borrow::ToOwned;
 use alloc::boxed::Box;
-use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
+use core::marker::PhantomData;
 use serde::de::value::MapDeserializer;
 use serde::de::{
     self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, VariantAccess, Visitor,
@@ -97,15 +97,14 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         return fn_apply.deserialize(rest);
                     }
                     deserialize_fn = Some(value);
-                    while let Some(key) = map.next_key::<String>()? {
-                        let key = Content::String(key);
+                    let key_seed = PhantomData::<Content>;
+                    while let Some(key) = map.next_key_seed(StringKeySeed { seed: key_seed })? {
                         let value = map.next_value::<Content>()?;
                         entries.push((key, value));
                     }
                     break;
                 }
                 Key::Other(key) => {
-                    let key = Content::String(key);
                     let value = map.next_value::<Content>()?;
                     entries.push((key, value));
                 }
@@ -129,9 +128,9 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
     }
 }
 
-enum Key {
+enum Key<'de> {
     Tag,
-    Other(String),
+    Other(Content<'de>),
 }
 
 #[derive(Copy, Clone)]
@@ -141,7 +140,7 @@ struct KeyVisitor {
 }
 
 impl<'de> Visitor<'de> for KeyVisitor {
-    type Value = Key;
+    type Value = Key<'de>;
 
     fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
         write!(formatter, "a key in dyn {}", self.trait_object)
@@ -154,13 +153,24 @@ impl<'de> Visitor<'de> for KeyVisitor {
         if value == self.tag {
             Ok(Key::Tag)
         } else {
-            Ok(Key::Other(value.to_owned()))
+            Ok(Key::Other(Content::String(value.to_owned())))
+        }
+    }
+
+    fn visit_borrowed_str<E>(self, value: &'de str) -> Result<Self::Value, E>
+    where
+        E: de::Error,
+    {
+        if value == self.tag {
+            Ok(Key::Tag)
+        } else {
+            Ok(Key::Other(Content::Str(value)))
         }
     }
 }
 
 impl<'de> DeserializeSeed<'de> for KeyVisitor {
-    type Value = Key;
+    type Value = Key<'de>;
 
     fn deserialize<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
     where
-- 
2.43.0


From 55d47849275fa6cbfc01a7463cb3e94ecb1cac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 05/14] fix: ignore every entry when the content of an
 internally tagged object is ignored

Only a lone "value" entry was accepted.
---
 src/internally.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internally.rs b/src/internally.rs
index a8224eb..ed10e5d 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -479,7 +479,7 @@ where
     where
         V: Visitor<'de>,
     {
-        if self.map.next_key_seed(DefaultKey)?.is_some() {
+        while self.map.next_key::<IgnoredAny>()?.is_some() {
             self.map.next_value::<IgnoredAny>()?;
         }
         visitor.visit_unit()
-- 
2.43.0


From efa791b49dfd83831797ca97f23abf0be7994bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 06/14] fix: read floats from any buffered number

A float that had been buffered as a f32, or as an integer narrower than 64
bits, was rejected.
---
 src/content.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index d128bc5..35728e6 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -332,6 +332,17 @@ where
             _ => Err(self.invalid_type(&visitor)),
         }
     }
+
+    fn deserialize_float<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.content {
+            Content::F32(v) => visitor.visit_f32(v),
+            Content::F64(v) => visitor.visit_f64(v),
+            _ => self.deserialize_integer(visitor),
+        }
+    }
 }
 
 fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
@@ -469,25 +480,14 @@ where
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F32(v) => visitor.visit_f32(v),
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From a312e2bf422747f43272f87c9664f1ec8742ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 07/14] fix: read empty tuple and struct variants from buffered
 content

An empty sequence was presented to the variant as a unit.
---
 src/content.rs | 155 +------------------------------------------------
 1 file changed, 3 insertions(+), 152 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 35728e6..dfb7791 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -8,7 +8,6 @@ use serde::de::{
     self, value, Deserialize, DeserializeSeed, Deserializer, EnumAccess, Expected,
     IntoDeserializer, MapAccess, SeqAccess, Unexpected, VariantAccess, Visitor,
 };
-use serde::forward_to_deserialize_any;
 
 // Used from generated code to buffer the contents of the Deserializer when
 // deserializing internally and adjacently tagged trait objects.
@@ -810,9 +809,7 @@ where
         V: Visitor<'de>,
     {
         match self.value {
-            Some(Content::Seq(v)) => {
-                Deserializer::deserialize_any(SeqDeserializer::new(v), visitor)
-            }
+            Some(Content::Seq(v)) => visit_content_seq(v, visitor),
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
                 &"tuple variant",
@@ -833,12 +830,8 @@ where
         V: Visitor<'de>,
     {
         match self.value {
-            Some(Content::Map(v)) => {
-                Deserializer::deserialize_any(MapDeserializer::new(v), visitor)
-            }
-            Some(Content::Seq(v)) => {
-                Deserializer::deserialize_any(SeqDeserializer::new(v), visitor)
-            }
+            Some(Content::Map(v)) => visit_content_map(v, visitor),
+            Some(Content::Seq(v)) => visit_content_seq(v, visitor),
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
                 &"struct variant",
@@ -850,145 +843,3 @@ where
         }
     }
 }
-
-struct SeqDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    iter: <Vec<Content<'de>> as IntoIterator>::IntoIter,
-    err: PhantomData<E>,
-}
-
-impl<'de, E> SeqDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    fn new(vec: Vec<Content<'de>>) -> Self {
-        SeqDeserializer {
-            iter: vec.into_iter(),
-            err: PhantomData,
-        }
-    }
-}
-
-impl<'de, E> Deserializer<'de> for SeqDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    type Error = E;
-
-    #[inline]
-    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
-        } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(de::Error::invalid_length(len, &"fewer elements in array"))
-            }
-        }
-    }
-
-    forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
-    }
-}
-
-impl<'de, E> SeqAccess<'de> for SeqDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    type Error = E;
-
-    fn next_element_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error>
-    where
-        T: DeserializeSeed<'de>,
-    {
-        match self.iter.next() {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)).map(Some),
-            None => Ok(None),
-        }
-    }
-}
-
-struct MapDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    iter: <Vec<(Content<'de>, Content<'de>)> as IntoIterator>::IntoIter,
-    value: Option<Content<'de>>,
-    err: PhantomData<E>,
-}
-
-impl<'de, E> MapDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    fn new(map: Vec<(Content<'de>, Content<'de>)>) -> Self {
-        MapDeserializer {
-            iter: map.into_iter(),
-            value: None,
-            err: PhantomData,
-        }
-    }
-}
-
-impl<'de, E> MapAccess<'de> for MapDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    type Error = E;
-
-    fn next_key_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error>
-    where
-        T: DeserializeSeed<'de>,
-    {
-        match self.iter.next() {
-            Some((key, value)) => {
-                self.value = Some(value);
-                seed.deserialize(ContentDeserializer::new(key)).map(Some)
-            }
-            None => Ok(None),
-        }
-    }
-
-    fn next_value_seed<T>(&mut self, seed: T) -> Result<T::Value, Self::Error>
-    where
-        T: DeserializeSeed<'de>,
-    {
-        match self.value.take() {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)),
-            None => Err(de::Error::custom("value is missing")),
-        }
-    }
-}
-
-impl<'de, E> Deserializer<'de> for MapDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    type Error = E;
-
-    #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        visitor.visit_map(self)
-    }
-
-    forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
-    }
-}
-- 
2.43.0


From 5cb33a4492262e04ebb3604d48649f24988249c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 08/14] fix: buffer 128-bit integers, and read them from
 buffered content

---
 src/content.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/content.rs b/src/content.rs
index dfb7791..2fcae83 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -19,11 +19,13 @@ pub enum Content<'de> {
     U16(u16),
     U32(u32),
     U64(u64),
+    U128(u128),
 
     I8(i8),
     I16(i16),
     I32(i32),
     I64(i64),
+    I128(i128),
 
     F32(f32),
     F64(f64),
@@ -51,10 +53,12 @@ impl<'de> Content<'de> {
             Content::U16(n) => Unexpected::Unsigned(u64::from(n)),
             Content::U32(n) => Unexpected::Unsigned(u64::from(n)),
             Content::U64(n) => Unexpected::Unsigned(n),
+            Content::U128(_) => Unexpected::Other("integer as u128"),
             Content::I8(n) => Unexpected::Signed(i64::from(n)),
             Content::I16(n) => Unexpected::Signed(i64::from(n)),
             Content::I32(n) => Unexpected::Signed(i64::from(n)),
             Content::I64(n) => Unexpected::Signed(n),
+            Content::I128(_) => Unexpected::Other("integer as i128"),
             Content::F32(f) => Unexpected::Float(f64::from(f)),
             Content::F64(f) => Unexpected::Float(f),
             Content::Char(c) => Unexpected::Char(c),
@@ -129,6 +133,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::I64(value))
     }
 
+    fn visit_i128<F>(self, value: i128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::I128(value))
+    }
+
     fn visit_u8<F>(self, value: u8) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -157,6 +168,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::U64(value))
     }
 
+    fn visit_u128<F>(self, value: u128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::U128(value))
+    }
+
     fn visit_f32<F>(self, value: f32) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -324,10 +342,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -389,10 +409,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             Content::F32(v) => visitor.visit_f32(v),
             Content::F64(v) => visitor.visit_f64(v),
             Content::Char(v) => visitor.visit_char(v),
@@ -447,6 +469,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
@@ -475,6 +504,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
-- 
2.43.0


From f8993a70339054791f3290ef77704115d7b30f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 09/14] fix: read a buffered null as a unit

Formats such as CBOR present null as an absent option, so that units and
unit structs were rejected in buffered content.
---
 src/content.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 2fcae83..039dbf8 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -595,7 +595,7 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Unit => visitor.visit_unit(),
+            Content::Unit | Content::None => visitor.visit_unit(),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -624,7 +624,7 @@ where
             // We want {"topic":"Info"} to deserialize even though
             // ordinarily unit structs do not deserialize from empty map.
             Content::Map(ref v) if v.is_empty() => visitor.visit_unit(),
-            _ => self.deserialize_any(visitor),
+            _ => self.deserialize_unit(visitor),
         }
     }
 
-- 
2.43.0


From 6faa234681df10e279b722a92cfbf5891bc7a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 10/14] fix: do not read a buffered empty map as a unit struct

The special case was meant for an internally tagged object without further
entries, which no longer passes through here. Everything else that it let
through is rejected when the tag comes first.
---
 src/content.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 039dbf8..a5561b6 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -608,24 +608,7 @@ where
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            // As a special case, allow deserializing untagged newtype
-            // variant containing unit struct.
-            //
-            //     #[derive(Deserialize)]
-            //     struct Info;
-            //
-            //     #[derive(Deserialize)]
-            //     #[serde(tag = "topic")]
-            //     enum Message {
-            //         Info(Info),
-            //     }
-            //
-            // We want {"topic":"Info"} to deserialize even though
-            // ordinarily unit structs do not deserialize from empty map.
-            Content::Map(ref v) if v.is_empty() => visitor.visit_unit(),
-            _ => self.deserialize_unit(visitor),
-        }
+        self.deserialize_unit(visitor)
     }
 
     fn deserialize_newtype_struct<V>(self, _name: &str, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 4eb7ad92cef02acafa673fe8bdbbd1f315bb7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 11/14] fix: write the bytes of an internally tagged object as
 bytes

They were written as a sequence of integers, which is not what they are read
back as.
---
 src/ser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9adfbcc..dcdf420 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -25,6 +25,17 @@ where
     }
 }
 
+struct Bytes<'a>(&'a [u8]);
+
+impl<'a> Serialize for Bytes<'a> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        serializer.serialize_bytes(self.0)
+    }
+}
+
 pub struct InternallyTaggedSerializer<S> {
     pub tag: &'static str,
     pub variant: &'static str,
@@ -122,7 +133,7 @@ where
     }
 
     fn serialize_bytes(self, value: &[u8]) -> Result<Self::Ok, Self::Error> {
-        self.serialize_default(value)
+        self.serialize_default(&Bytes(value))
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 352904e6478ee758ef043e577b16c8dd73d5f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 12/14] fix: tell types whether the format is human readable

The adapters for internally tagged objects, and for buffered content, always
claimed to be human readable. Types that write themselves differently in
compact formats were written in one form and read in another.
---
 src/adjacently.rs       |   8 ++-
 src/content.rs          |  97 +++++++++++++++++++------------
 src/internally.rs       |  40 +++++++++++--
 src/is_serialize_str.rs |  16 ++++-
 src/ser.rs              | 126 ++++++++++++++++++++++++++++++----------
 5 files changed, 210 insertions(+), 77 deletions(-)

diff --git a/src/adjacently.rs b/src/adjacently.rs
index a8b317a..ed3cb0e 100644
--- a/src/adjacently.rs
+++ b/src/adjacently.rs
@@ -1,4 +1,4 @@
-use crate::content::Content;
+use crate::content::{Content, ContentDeserializer};
 use crate::de::{FnApply, MapLookupVisitor};
 use crate::private::Registry;
 use crate::ser::Wrap;
@@ -46,6 +46,7 @@ where
         default_variant,
         registry,
         deny_unknown_fields,
+        human_readable: deserializer.is_human_readable(),
     };
     deserializer.deserialize_struct(trait_object, field_names, visitor)
 }
@@ -56,6 +57,7 @@ struct TaggedVisitor<T: ?Sized + 'static> {
     default_variant: Option<&'static str>,
     registry: &'static Registry<T>,
     deny_unknown_fields: bool,
+    human_readable: bool,
 }
 
 impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
@@ -130,7 +132,7 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         // Parse the tag.
                         let deserialize_fn = map.next_value_seed(map_lookup)?;
                         let fn_apply = FnApply { deserialize_fn };
-                        let content = content.into_deserializer();
+                        let content = ContentDeserializer::new(content, self.human_readable);
                         fn_apply.deserialize(content)?
                     }
                     // Second key is a duplicate of the content.
@@ -142,7 +144,7 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         if let Some(variant) = self.default_variant {
                             let deserialize_fn = map_lookup.visit_str(variant)?;
                             let fn_apply = FnApply { deserialize_fn };
-                            let content = content.into_deserializer();
+                            let content = ContentDeserializer::new(content, self.human_readable);
                             fn_apply.deserialize(content)?
                         } else {
                             // No variant is specified and there is no default variant.
diff --git a/src/content.rs b/src/content.rs
index a5561b6..d8e6d63 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -300,20 +300,10 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
 
 pub struct ContentDeserializer<'de, E> {
     content: Content<'de>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
-impl<'de, E> IntoDeserializer<'de, E> for Content<'de>
-where
-    E: de::Error,
-{
-    type Deserializer = ContentDeserializer<'de, E>;
-
-    fn into_deserializer(self) -> Self::Deserializer {
-        ContentDeserializer::new(self)
-    }
-}
-
 impl<'de, E> IntoDeserializer<'de, E> for ContentDeserializer<'de, E>
 where
     E: de::Error,
@@ -364,12 +354,18 @@ where
     }
 }
 
-fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
+fn visit_content_seq<'de, V, E>(
+    content: Vec<Content<'de>>,
+    human_readable: bool,
+    visitor: V,
+) -> Result<V::Value, E>
 where
     V: Visitor<'de>,
     E: de::Error,
 {
-    let seq = content.into_iter().map(ContentDeserializer::new);
+    let seq = content
+        .into_iter()
+        .map(|v| ContentDeserializer::new(v, human_readable));
     let mut seq_visitor = value::SeqDeserializer::new(seq);
     let value = visitor.visit_seq(&mut seq_visitor)?;
     seq_visitor.end()?;
@@ -378,15 +374,19 @@ where
 
 fn visit_content_map<'de, V, E>(
     content: Vec<(Content<'de>, Content<'de>)>,
+    human_readable: bool,
     visitor: V,
 ) -> Result<V::Value, E>
 where
     V: Visitor<'de>,
     E: de::Error,
 {
-    let map = content
-        .into_iter()
-        .map(|(k, v)| (ContentDeserializer::new(k), ContentDeserializer::new(v)));
+    let map = content.into_iter().map(|(k, v)| {
+        (
+            ContentDeserializer::new(k, human_readable),
+            ContentDeserializer::new(v, human_readable),
+        )
+    });
     let mut map_visitor = value::MapDeserializer::new(map);
     let value = visitor.visit_map(&mut map_visitor)?;
     map_visitor.end()?;
@@ -399,6 +399,10 @@ where
 {
     type Error = E;
 
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
+
     fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
@@ -424,10 +428,14 @@ where
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
             Content::Unit => visitor.visit_unit(),
             Content::None => visitor.visit_none(),
-            Content::Some(v) => visitor.visit_some(ContentDeserializer::new(*v)),
-            Content::Newtype(v) => visitor.visit_newtype_struct(ContentDeserializer::new(*v)),
-            Content::Seq(v) => visit_content_seq(v, visitor),
-            Content::Map(v) => visit_content_map(v, visitor),
+            Content::Some(v) => {
+                visitor.visit_some(ContentDeserializer::new(*v, self.human_readable))
+            }
+            Content::Newtype(v) => {
+                visitor.visit_newtype_struct(ContentDeserializer::new(*v, self.human_readable))
+            }
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
+            Content::Map(v) => visit_content_map(v, self.human_readable, visitor),
         }
     }
 
@@ -573,7 +581,7 @@ where
             Content::Str(v) => visitor.visit_borrowed_str(v),
             Content::ByteBuf(v) => visitor.visit_byte_buf(v),
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
-            Content::Seq(v) => visit_content_seq(v, visitor),
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -584,7 +592,9 @@ where
     {
         match self.content {
             Content::None => visitor.visit_none(),
-            Content::Some(v) => visitor.visit_some(ContentDeserializer::new(*v)),
+            Content::Some(v) => {
+                visitor.visit_some(ContentDeserializer::new(*v, self.human_readable))
+            }
             Content::Unit => visitor.visit_unit(),
             _ => visitor.visit_some(self),
         }
@@ -616,7 +626,9 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Newtype(v) => visitor.visit_newtype_struct(ContentDeserializer::new(*v)),
+            Content::Newtype(v) => {
+                visitor.visit_newtype_struct(ContentDeserializer::new(*v, self.human_readable))
+            }
             _ => visitor.visit_newtype_struct(self),
         }
     }
@@ -626,7 +638,7 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Seq(v) => visit_content_seq(v, visitor),
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -655,7 +667,7 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Map(v) => visit_content_map(v, visitor),
+            Content::Map(v) => visit_content_map(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -670,8 +682,8 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Seq(v) => visit_content_seq(v, visitor),
-            Content::Map(v) => visit_content_map(v, visitor),
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
+            Content::Map(v) => visit_content_map(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -712,7 +724,7 @@ where
             }
         };
 
-        visitor.visit_enum(EnumDeserializer::new(variant, value))
+        visitor.visit_enum(EnumDeserializer::new(variant, value, self.human_readable))
     }
 
     fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -739,9 +751,10 @@ where
 }
 
 impl<'de, E> ContentDeserializer<'de, E> {
-    fn new(content: Content<'de>) -> Self {
+    pub fn new(content: Content<'de>, human_readable: bool) -> Self {
         ContentDeserializer {
             content,
+            human_readable,
             err: PhantomData,
         }
     }
@@ -753,6 +766,7 @@ where
 {
     variant: Content<'de>,
     value: Option<Content<'de>>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
@@ -760,10 +774,15 @@ impl<'de, E> EnumDeserializer<'de, E>
 where
     E: de::Error,
 {
-    fn new(variant: Content<'de>, value: Option<Content<'de>>) -> EnumDeserializer<'de, E> {
+    fn new(
+        variant: Content<'de>,
+        value: Option<Content<'de>>,
+        human_readable: bool,
+    ) -> EnumDeserializer<'de, E> {
         EnumDeserializer {
             variant,
             value,
+            human_readable,
             err: PhantomData,
         }
     }
@@ -782,10 +801,11 @@ where
     {
         let visitor = VariantDeserializer {
             value: self.value,
+            human_readable: self.human_readable,
             err: PhantomData,
         };
-        seed.deserialize(ContentDeserializer::new(self.variant))
-            .map(|v| (v, visitor))
+        let variant = ContentDeserializer::new(self.variant, self.human_readable);
+        seed.deserialize(variant).map(|v| (v, visitor))
     }
 }
 
@@ -794,6 +814,7 @@ where
     E: de::Error,
 {
     value: Option<Content<'de>>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
@@ -805,7 +826,9 @@ where
 
     fn unit_variant(self) -> Result<(), E> {
         match self.value {
-            Some(value) => Deserialize::deserialize(ContentDeserializer::new(value)),
+            Some(value) => {
+                Deserialize::deserialize(ContentDeserializer::new(value, self.human_readable))
+            }
             None => Ok(()),
         }
     }
@@ -815,7 +838,7 @@ where
         T: DeserializeSeed<'de>,
     {
         match self.value {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)),
+            Some(value) => seed.deserialize(ContentDeserializer::new(value, self.human_readable)),
             None => Err(de::Error::invalid_type(
                 Unexpected::UnitVariant,
                 &"newtype variant",
@@ -828,7 +851,7 @@ where
         V: Visitor<'de>,
     {
         match self.value {
-            Some(Content::Seq(v)) => visit_content_seq(v, visitor),
+            Some(Content::Seq(v)) => visit_content_seq(v, self.human_readable, visitor),
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
                 &"tuple variant",
@@ -849,8 +872,8 @@ where
         V: Visitor<'de>,
     {
         match self.value {
-            Some(Content::Map(v)) => visit_content_map(v, visitor),
-            Some(Content::Seq(v)) => visit_content_seq(v, visitor),
+            Some(Content::Map(v)) => visit_content_map(v, self.human_readable, visitor),
+            Some(Content::Seq(v)) => visit_content_seq(v, self.human_readable, visitor),
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
                 &"struct variant",
diff --git a/src/internally.rs b/src/internally.rs
index ed10e5d..cee97c7 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -1,4 +1,4 @@
-use crate::content::Content;
+use crate::content::{Content, ContentDeserializer};
 use crate::de::{FnApply, MapLookupVisitor};
 use crate::private::Registry;
 use crate::ser::{InternallyTaggedSerializer, Wrap};
@@ -48,6 +48,7 @@ where
         tag,
         default_variant,
         registry,
+        human_readable: deserializer.is_human_readable(),
     };
     deserializer.deserialize_map(visitor)
 }
@@ -59,6 +60,7 @@ struct TaggedVisitor<T: ?Sized + 'static> {
     tag: &'static str,
     default_variant: Option<&'static str>,
     registry: &'static Registry<T>,
+    human_readable: bool,
 }
 
 impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
@@ -93,7 +95,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         let fn_apply = FnApply {
                             deserialize_fn: value,
                         };
-                        let rest = MapWithStringKeys { map };
+                        let rest = MapWithStringKeys {
+                            map,
+                            human_readable: self.human_readable,
+                        };
                         return fn_apply.deserialize(rest);
                     }
                     deserialize_fn = Some(value);
@@ -120,8 +125,16 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         };
 
         let fn_apply = FnApply { deserialize_fn };
-        let mut map = MapDeserializer::new(entries.into_iter());
-        let rest = MapWithStringKeys { map: &mut map };
+        let mut map = MapDeserializer::new(entries.into_iter().map(|(key, value)| {
+            (
+                ContentDeserializer::new(key, self.human_readable),
+                ContentDeserializer::new(value, self.human_readable),
+            )
+        }));
+        let rest = MapWithStringKeys {
+            map: &mut map,
+            human_readable: self.human_readable,
+        };
         let object = fn_apply.deserialize(rest)?;
         map.end()?;
         Ok(object)
@@ -182,6 +195,7 @@ impl<'de> DeserializeSeed<'de> for KeyVisitor {
 
 struct MapWithStringKeys<A> {
     map: A,
+    human_readable: bool,
 }
 
 impl<'de, A> MapWithStringKeys<A>
@@ -230,6 +244,10 @@ where
 {
     type Error = A::Error;
 
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
+
     fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
@@ -369,7 +387,10 @@ where
     {
         match self.map.next_key_seed(DefaultKey)? {
             None => visitor.visit_none(),
-            Some(()) => visitor.visit_some(MapValueAsDeserializer { map: self.map }),
+            Some(()) => visitor.visit_some(MapValueAsDeserializer {
+                map: self.map,
+                human_readable: self.human_readable,
+            }),
         }
     }
 
@@ -655,6 +676,10 @@ where
 {
     type Error = D::Error;
 
+    fn is_human_readable(&self) -> bool {
+        self.delegate.is_human_readable()
+    }
+
     fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
@@ -734,6 +759,7 @@ impl<'de> DeserializeSeed<'de> for DefaultKey {
 
 struct MapValueAsDeserializer<A> {
     map: A,
+    human_readable: bool,
 }
 
 macro_rules! deserialize_map_value {
@@ -770,6 +796,10 @@ where
 {
     type Error = A::Error;
 
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
+
     fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
diff --git a/src/is_serialize_str.rs b/src/is_serialize_str.rs
index 1116a41..7afa95c 100644
--- a/src/is_serialize_str.rs
+++ b/src/is_serialize_str.rs
@@ -7,11 +7,18 @@ use alloc::boxed::Box;
 use core::fmt::{self, Debug, Display};
 use serde::ser::{self, Error, Impossible, Serialize, StdError};
 
-pub fn expect_str<T>(value: &T, expected_str: &'static str) -> Result<(), Unexpected>
+pub fn expect_str<T>(
+    value: &T,
+    expected_str: &'static str,
+    human_readable: bool,
+) -> Result<(), Unexpected>
 where
     T: ?Sized + Serialize,
 {
-    match value.serialize(Serializer { expected_str }) {
+    match value.serialize(Serializer {
+        expected_str,
+        human_readable,
+    }) {
         Err(SerializerState::Ok) => Ok(()),
         Err(SerializerState::UnexpectedStr(string)) => Err(Unexpected::Str(string)),
         Err(SerializerState::UnexpectedKind) => Err(Unexpected::NonStr),
@@ -59,6 +66,7 @@ impl Display for SerializerState {
 
 struct Serializer {
     expected_str: &'static str,
+    human_readable: bool,
 }
 
 impl ser::Serializer for Serializer {
@@ -73,6 +81,10 @@ impl ser::Serializer for Serializer {
     type SerializeStruct = Impossible<Self::Ok, Self::Error>;
     type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
+
     fn serialize_bool(self, _: bool) -> Result<Self::Ok, Self::Error> {
         Err(SerializerState::UnexpectedKind)
     }
diff --git a/src/ser.rs b/src/ser.rs
index dcdf420..452cc4b 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -72,6 +72,10 @@ where
     type SerializeStruct = SerializeStructAsMap<S::SerializeMap>;
     type SerializeStructVariant = SerializeStructVariantAsMapValue<S::SerializeMap>;
 
+    fn is_human_readable(&self) -> bool {
+        self.delegate.is_human_readable()
+    }
+
     fn serialize_bool(self, value: bool) -> Result<Self::Ok, Self::Error> {
         self.serialize_default(&value)
     }
@@ -197,17 +201,19 @@ where
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeSeqAsMapValue::new(map, len))
+        Ok(SerializeSeqAsMapValue::new(map, len, human_readable))
     }
 
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeTupleAsMapValue::new(map, len))
+        Ok(SerializeTupleAsMapValue::new(map, len, human_readable))
     }
 
     fn serialize_tuple_struct(
@@ -215,10 +221,16 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleStruct, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeTupleStructAsMapValue::new(map, name, len))
+        Ok(SerializeTupleStructAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 
     fn serialize_tuple_variant(
@@ -228,10 +240,16 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(name)?;
-        Ok(SerializeTupleStructAsMapValue::new(map, name, len))
+        Ok(SerializeTupleStructAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
@@ -245,9 +263,15 @@ where
         _: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStruct, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut state = self.delegate.serialize_map(Some(len + 1))?;
         state.serialize_entry(self.tag, self.variant)?;
-        Ok(SerializeStructAsMap::new(state, self.tag, self.variant))
+        Ok(SerializeStructAsMap::new(
+            state,
+            self.tag,
+            self.variant,
+            human_readable,
+        ))
     }
 
     fn serialize_struct_variant(
@@ -257,23 +281,31 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(name)?;
-        Ok(SerializeStructVariantAsMapValue::new(map, name, len))
+        Ok(SerializeStructVariantAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 }
 
 pub struct SerializeSeqAsMapValue<M> {
     map: M,
     fields: Vec<Content>,
+    human_readable: bool,
 }
 
 impl<M> SerializeSeqAsMapValue<M> {
-    pub fn new(map: M, len: Option<usize>) -> Self {
+    pub fn new(map: M, len: Option<usize>, human_readable: bool) -> Self {
         SerializeSeqAsMapValue {
             map,
             fields: Vec::with_capacity(len.unwrap_or(0)),
+            human_readable,
         }
     }
 }
@@ -289,7 +321,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -303,13 +335,15 @@ where
 pub struct SerializeTupleAsMapValue<M> {
     map: M,
     fields: Vec<Content>,
+    human_readable: bool,
 }
 
 impl<M> SerializeTupleAsMapValue<M> {
-    pub fn new(map: M, len: usize) -> Self {
+    pub fn new(map: M, len: usize, human_readable: bool) -> Self {
         SerializeTupleAsMapValue {
             map,
             fields: Vec::with_capacity(len),
+            human_readable,
         }
     }
 }
@@ -325,7 +359,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -340,14 +374,16 @@ pub struct SerializeTupleStructAsMapValue<M> {
     map: M,
     name: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
 }
 
 impl<M> SerializeTupleStructAsMapValue<M> {
-    pub fn new(map: M, name: &'static str, len: usize) -> Self {
+    pub fn new(map: M, name: &'static str, len: usize, human_readable: bool) -> Self {
         SerializeTupleStructAsMapValue {
             map,
             name,
             fields: Vec::with_capacity(len),
+            human_readable,
         }
     }
 }
@@ -363,7 +399,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -386,7 +422,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -402,11 +438,17 @@ pub struct SerializeStructAsMap<M> {
     map: M,
     tag: &'static str,
     variant: &'static str,
+    human_readable: bool,
 }
 
 impl<M> SerializeStructAsMap<M> {
-    fn new(map: M, tag: &'static str, variant: &'static str) -> Self {
-        SerializeStructAsMap { map, tag, variant }
+    fn new(map: M, tag: &'static str, variant: &'static str, human_readable: bool) -> Self {
+        SerializeStructAsMap {
+            map,
+            tag,
+            variant,
+            human_readable,
+        }
     }
 }
 
@@ -422,7 +464,7 @@ where
         T: ?Sized + Serialize,
     {
         if key == self.tag {
-            match expect_str(value, self.variant) {
+            match expect_str(value, self.variant, self.human_readable) {
                 Ok(()) => Ok(()),
                 Err(unexpected) => Err(ser::Error::custom(format!(
                     "mismatched value for tag {:?}: {:?} vs {:?}",
@@ -443,14 +485,16 @@ pub struct SerializeStructVariantAsMapValue<M> {
     map: M,
     name: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
 }
 
 impl<M> SerializeStructVariantAsMapValue<M> {
-    pub fn new(map: M, name: &'static str, len: usize) -> Self {
+    pub fn new(map: M, name: &'static str, len: usize, human_readable: bool) -> Self {
         SerializeStructVariantAsMapValue {
             map,
             name,
             fields: Vec::with_capacity(len),
+            human_readable,
         }
     }
 }
@@ -466,7 +510,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
@@ -603,12 +647,16 @@ impl Serialize for Content {
 }
 
 pub struct ContentSerializer<E> {
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
 impl<E> ContentSerializer<E> {
-    pub fn new() -> Self {
-        ContentSerializer { error: PhantomData }
+    pub fn new(human_readable: bool) -> Self {
+        ContentSerializer {
+            human_readable,
+            error: PhantomData,
+        }
     }
 }
 
@@ -627,6 +675,10 @@ where
     type SerializeStruct = ContentSerializeStruct<E>;
     type SerializeStructVariant = ContentSerializeStructVariant<E>;
 
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
+
     fn serialize_bool(self, v: bool) -> Result<Content, E> {
         Ok(Content::Bool(v))
     }
@@ -750,6 +802,7 @@ where
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, E> {
         Ok(ContentSerializeSeq {
             elements: Vec::with_capacity(len.unwrap_or(0)),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -757,6 +810,7 @@ where
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, E> {
         Ok(ContentSerializeTuple {
             elements: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -769,6 +823,7 @@ where
         Ok(ContentSerializeTupleStruct {
             name,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -785,6 +840,7 @@ where
             variant_index,
             variant,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -793,6 +849,7 @@ where
         Ok(ContentSerializeMap {
             entries: Vec::with_capacity(len.unwrap_or(0)),
             key: None,
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -801,6 +858,7 @@ where
         Ok(ContentSerializeStruct {
             name,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -817,6 +875,7 @@ where
             variant_index,
             variant,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -824,6 +883,7 @@ where
 
 pub struct ContentSerializeSeq<E> {
     elements: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -838,7 +898,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.elements.push(value);
         Ok(())
     }
@@ -850,6 +910,7 @@ where
 
 pub struct ContentSerializeTuple<E> {
     elements: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -864,7 +925,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.elements.push(value);
         Ok(())
     }
@@ -877,6 +938,7 @@ where
 pub struct ContentSerializeTupleStruct<E> {
     name: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -891,7 +953,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -906,6 +968,7 @@ pub struct ContentSerializeTupleVariant<E> {
     variant_index: u32,
     variant: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -920,7 +983,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -938,6 +1001,7 @@ where
 pub struct ContentSerializeMap<E> {
     entries: Vec<(Content, Content)>,
     key: Option<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -952,7 +1016,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let key = key.serialize(ContentSerializer::<E>::new())?;
+        let key = key.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.key = Some(key);
         Ok(())
     }
@@ -965,7 +1029,7 @@ where
             .key
             .take()
             .expect("serialize_value called before serialize_key");
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.entries.push((key, value));
         Ok(())
     }
@@ -979,8 +1043,8 @@ where
         K: ?Sized + Serialize,
         V: ?Sized + Serialize,
     {
-        let key = key.serialize(ContentSerializer::<E>::new())?;
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let key = key.serialize(ContentSerializer::<E>::new(self.human_readable))?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.entries.push((key, value));
         Ok(())
     }
@@ -989,6 +1053,7 @@ where
 pub struct ContentSerializeStruct<E> {
     name: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -1003,7 +1068,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
@@ -1018,6 +1083,7 @@ pub struct ContentSerializeStructVariant<E> {
     variant_index: u32,
     variant: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -1032,7 +1098,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
-- 
2.43.0


From 0ca1122ab7c4543015252a17fb6c9353a7f84d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 13/14] fix: allow a trait or a generic parameter named S in
 #[typetag::serialize]

---
 impl/src/tagged_trait.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index a3162e2..a8f749c 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -39,9 +39,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         expanded.extend(quote! {
             impl #impl_generics typetag::#private::serde::Serialize
             for dyn #object #ty_generics + 'typetag #where_clause {
-                fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                 where
-                    S: typetag::#private::serde::Serializer,
+                    __S: typetag::#private::serde::Serializer,
                 {
                     #serialize_impl
                 }
@@ -52,9 +52,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
-                    fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                    fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                     where
-                        S: typetag::#private::serde::Serializer,
+                        __S: typetag::#private::serde::Serializer,
                     {
                         typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, serializer)
                     }
-- 
2.43.0


From ed6409cd9dabc59f248cf1bd3a00afcd76167312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 14/14] fix: do not resolve Send and Sync in the scope of the
 trait

---
 impl/src/tagged_trait.rs | 18 +++++++++++++-----
 src/private.rs           |  2 ++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index a8f749c..89ba1fe 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -48,7 +48,11 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             }
         });
 
-        for marker_traits in &[quote!(Send), quote!(Sync), quote!(Send + Sync)] {
+        for marker_traits in &[
+            quote!(typetag::#private::Send),
+            quote!(typetag::#private::Sync),
+            quote!(typetag::#private::Send + typetag::#private::Sync),
+        ] {
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
@@ -70,11 +74,15 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         let is_sync = has_supertrait(&input, "Sync");
         let (strictest, others) = match (is_send, is_sync) {
             (false, false) => (quote!(), vec![]),
-            (true, false) => (quote!(Send), vec![quote!()]),
-            (false, true) => (quote!(Sync), vec![quote!()]),
+            (true, false) => (quote!(typetag::#private::Send), vec![quote!()]),
+            (false, true) => (quote!(typetag::#private::Sync), vec![quote!()]),
             (true, true) => (
-                quote!(Send + Sync),
-                vec![quote!(), quote!(Send), quote!(Sync)],
+                quote!(typetag::#private::Send + typetag::#private::Sync),
+                vec![
+                    quote!(),
+                    quote!(typetag::#private::Send),
+                    quote!(typetag::#private::Sync),
+                ],
             ),
         };
 
diff --git a/src/private.rs b/src/private.rs
index 911ecf6..88819bf 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -28,6 +28,8 @@ pub mod adjacently {
 #[doc(hidden)]
 pub use alloc::collections::btree_map;
 #[doc(hidden)]
+pub use core::marker::{Send, Sync};
+#[doc(hidden)]
 pub use core::option::Option;
 #[doc(hidden)]
 pub use core::result::Result;
-- 
2.43.0

