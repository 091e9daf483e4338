//! A format that does not describe itself: the reader must ask for exactly what was written.
use crate::doc::Cx;
use crate::tok::{Bad, Tok, N};
use serde::de::{self, DeserializeSeed, Deserializer, Visitor};
use std::cell::Cell;

pub struct Tape<'a> {
    pub t: &'a [Tok],
    pub pos: Cell<usize>,
    pub cx: &'a Cx,
}

#[derive(Clone, Copy)]
pub struct De<'a>(pub &'a Tape<'a>);

fn bad<T>(m: String) -> Result<T, Bad> {
    Err(Bad(m))
}

impl<'a> Tape<'a> {
    pub fn new(t: &'a [Tok], cx: &'a Cx) -> Tape<'a> {
        Tape { t, pos: Cell::new(0), cx }
    }
    pub fn at_end(&self) -> bool {
        self.pos.get() == self.t.len()
    }
    #[track_caller]
    fn next(&self) -> Result<&'a Tok, Bad> {
        self.cx.call()?;
        let i = self.pos.get();
        self.pos.set(i + 1);
        match self.t.get(i) {
            Some(t) => Ok(t),
            None => bad("end of data".into()),
        }
    }
    #[track_caller]
    fn end(&self) -> Result<(), Bad> {
        match self.next()? {
            Tok::End => Ok(()),
            t => bad(format!("out of step: {t:?} where the container should end")),
        }
    }
    /// Map keys, field names and so on take no space in such a format.
    #[track_caller]
    fn marker(&self, m: Tok) -> Result<(), Bad> {
        let t = self.next()?;
        if *t == m {
            Ok(())
        } else {
            bad(format!("out of step: {t:?} instead of {m:?}"))
        }
    }
    fn field(&self) {
        while let Some(Tok::Field(_) | Tok::Skip(_)) = self.t.get(self.pos.get()) {
            self.pos.set(self.pos.get() + 1);
        }
    }
}

macro_rules! prim {
    ($($m:ident $v:ident $vis:ident;)*) => {$(
        fn $m<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
            match self.0.next()? {
                Tok::$v(x) => v.$vis(*x),
                t => bad(format!("{} where {t:?} was written", stringify!($m))),
            }
        }
    )*};
}
macro_rules! guess {
    ($($m:ident)*) => {$(
        fn $m<V: Visitor<'a>>(self, _: V) -> Result<V::Value, Bad> {
            bad(format!("the format does not support {}", stringify!($m)))
        }
    )*};
}

impl<'a> De<'a> {
    fn items<V: Visitor<'a>>(self, n: usize, v: V) -> Result<V::Value, Bad> {
        let r = v.visit_seq(Items { de: self, n })?;
        self.0.field();
        self.0.end()?;
        Ok(r)
    }
    fn str<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0.next()? {
            Tok::Str(x) => match self.0.cx.text {
                crate::doc::Text::Borrowed => v.visit_borrowed_str(x),
                crate::doc::Text::Transient => v.visit_str(x),
                crate::doc::Text::Owned => v.visit_string(x.clone()),
            },
            t => bad(format!("deserialize_str where {t:?} was written")),
        }
    }
    fn byt<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0.next()? {
            Tok::Bytes(x) => match self.0.cx.text {
                crate::doc::Text::Borrowed => v.visit_borrowed_bytes(x),
                crate::doc::Text::Transient => v.visit_bytes(x),
                crate::doc::Text::Owned => v.visit_byte_buf(x.clone()),
            },
            t => bad(format!("deserialize_bytes where {t:?} was written")),
        }
    }
    /// The name that is asked for is the one that was written. A struct variant as the entry of a map is a struct
    /// named like the variant, and asked for by the name of the enum (in serde as here): that one is left open.
    fn named(self, want: N) -> Result<(), Bad> {
        let (t, i) = (self.0.t, self.0.pos.get());
        let variant = i > 1 && matches!((&t[i - 2], &t[i - 1], t.get(i)), (Tok::Str(k), Tok::Value, Some(Tok::Struct(n, _))) if k == n);
        match t.get(i) {
            Some(Tok::UnitStruct(n) | Tok::NewtypeStruct(n) | Tok::TupleStruct(n, _) | Tok::Struct(n, _)) if *n != want && !variant => bad(format!("{want} where {n} was written")),
            _ => Ok(()),
        }
    }
    /// And so are the names of the fields.
    fn fields(self, want: &[N], from: usize) -> Result<(), Bad> {
        let (mut depth, mut i) = (0, 0);
        for t in &self.0.t[from..] {
            match t {
                Tok::Field(n) if depth == 0 => {
                    if want.get(i) != Some(n) {
                        return bad(format!("field {:?} where {n} was written", want.get(i)));
                    }
                    i += 1;
                }
                Tok::End if depth == 0 => break,
                Tok::End => depth -= 1,
                Tok::Seq(_) | Tok::Map(_) | Tok::Tuple(_) | Tok::TupleStruct(..) | Tok::TupleVariant(..) | Tok::Struct(..) | Tok::StructVariant(..) => depth += 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn by_name<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        let r = v.visit_map(Named(self))?;
        while let Some(Tok::Skip(_)) = self.0.t.get(self.0.pos.get()) {
            self.0.pos.set(self.0.pos.get() + 1);
        }
        self.0.end()?;
        Ok(r)
    }
    fn tup<V: Visitor<'a>>(self, want: usize, v: V) -> Result<V::Value, Bad> {
        match self.0.next()? {
            Tok::Tuple(n) | Tok::TupleStruct(_, n) | Tok::Struct(_, n) if *n == want => self.items(*n, v),
            t => bad(format!("tuple of {want} where {t:?} was written")),
        }
    }
}

/// A name of a field or a variant, which can be asked for as what it is, and as text.
struct Name<'a>(&'a Tape<'a>, N);
impl<'a> Name<'a> {
    fn text<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        self.0.cx.call()?;
        match self.0.cx.text {
            crate::doc::Text::Borrowed => v.visit_borrowed_str(self.1),
            crate::doc::Text::Transient => v.visit_str(self.1),
            crate::doc::Text::Owned => v.visit_string(self.1.to_string()),
        }
    }
}
impl<'a> Deserializer<'a> for Name<'a> {
    type Error = Bad;
    guess! { deserialize_any deserialize_ignored_any }
    fn deserialize_identifier<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        self.text(v)
    }
    fn deserialize_str<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        self.text(v)
    }
    fn deserialize_string<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        self.text(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'a>>(self, _: N, v: V) -> Result<V::Value, Bad> {
        v.visit_newtype_struct(self)
    }
    fn is_human_readable(&self) -> bool {
        self.0.cx.human
    }
    guess! {
        deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16
        deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64 deserialize_char deserialize_bytes deserialize_byte_buf
        deserialize_option deserialize_unit deserialize_seq deserialize_map
    }
    fn deserialize_unit_struct<V: Visitor<'a>>(self, _: N, _: V) -> Result<V::Value, Bad> {
        bad("a name is no unit struct".into())
    }
    fn deserialize_tuple<V: Visitor<'a>>(self, _: usize, _: V) -> Result<V::Value, Bad> {
        bad("a name is no tuple".into())
    }
    fn deserialize_tuple_struct<V: Visitor<'a>>(self, _: N, _: usize, _: V) -> Result<V::Value, Bad> {
        bad("a name is no tuple struct".into())
    }
    fn deserialize_struct<V: Visitor<'a>>(self, _: N, _: &'static [N], _: V) -> Result<V::Value, Bad> {
        bad("a name is no struct".into())
    }
    fn deserialize_enum<V: Visitor<'a>>(self, _: N, _: &'static [N], _: V) -> Result<V::Value, Bad> {
        bad("a name is no enum".into())
    }
}

/// The fields of a struct, each under its name.
struct Named<'a>(De<'a>);
impl<'a> de::MapAccess<'a> for Named<'a> {
    type Error = Bad;
    fn next_key_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        let t = self.0 .0;
        while let Some(Tok::Skip(_)) = t.t.get(t.pos.get()) {
            t.pos.set(t.pos.get() + 1);
        }
        match t.t.get(t.pos.get()) {
            Some(Tok::End) => Ok(None),
            Some(Tok::Field(n)) => {
                t.pos.set(t.pos.get() + 1);
                seed.deserialize(Name(t, n)).map(Some)
            }
            t => bad(format!("out of step: {t:?} instead of a field")),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<T::Value, Bad> {
        seed.deserialize(self.0)
    }
}

struct Items<'a> {
    de: De<'a>,
    n: usize,
}
impl<'a> de::SeqAccess<'a> for Items<'a> {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        self.de.0.field();
        seed.deserialize(self.de).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.n)
    }
}
struct Entries<'a> {
    de: De<'a>,
    n: usize,
}
impl<'a> de::MapAccess<'a> for Entries<'a> {
    type Error = Bad;
    fn next_key_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        self.de.0.marker(Tok::Key)?;
        seed.deserialize(self.de).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<T::Value, Bad> {
        self.de.0.marker(Tok::Value)?;
        seed.deserialize(self.de)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.n)
    }
}

struct Var<'a> {
    de: De<'a>,
    t: &'a Tok,
}
struct Idx(u32);
impl<'de> Deserializer<'de> for Idx {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        v.visit_u32(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
impl<'a> de::EnumAccess<'a> for Var<'a> {
    type Error = Bad;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'a>>(self, seed: V) -> Result<(V::Value, Self), Bad> {
        let (i, w) = match self.t {
            Tok::UnitVariant(_, i, w) | Tok::NewtypeVariant(_, i, w) => (*i, w),
            Tok::TupleVariant(_, i, w, _) | Tok::StructVariant(_, i, w, _) => (*i, w),
            t => return bad(format!("deserialize_enum where {t:?} was written")),
        };
        if self.de.0.cx.names {
            return Ok((seed.deserialize(Name(self.de.0, w))?, self));
        }
        Ok((seed.deserialize(Idx(i))?, self))
    }
}
impl<'a> de::VariantAccess<'a> for Var<'a> {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        match self.t {
            Tok::UnitVariant(..) => Ok(()),
            t => bad(format!("unit_variant where {t:?} was written")),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'a>>(self, seed: T) -> Result<T::Value, Bad> {
        match self.t {
            Tok::NewtypeVariant(..) => seed.deserialize(self.de),
            t => bad(format!("newtype_variant where {t:?} was written")),
        }
    }
    fn tuple_variant<V: Visitor<'a>>(self, len: usize, v: V) -> Result<V::Value, Bad> {
        match self.t {
            Tok::TupleVariant(_, _, _, n) if *n == len => self.de.items(len, v),
            t => bad(format!("tuple_variant of {len} where {t:?} was written")),
        }
    }
    fn struct_variant<V: Visitor<'a>>(self, f: &'static [N], v: V) -> Result<V::Value, Bad> {
        match self.t {
            Tok::StructVariant(_, _, _, n) if *n == f.len() => {
                self.de.fields(f, self.de.0.pos.get())?;
                if self.de.0.cx.names {
                    return self.de.by_name(v);
                }
                self.de.items(f.len(), v)
            }
            t => bad(format!("struct_variant of {} where {t:?} was written", f.len())),
        }
    }
}

impl<'a> Deserializer<'a> for De<'a> {
    type Error = Bad;
    guess! { deserialize_any deserialize_ignored_any deserialize_identifier }
    prim! {
        deserialize_bool Bool visit_bool;
        deserialize_i8 I8 visit_i8; deserialize_i16 I16 visit_i16; deserialize_i32 I32 visit_i32;
        deserialize_i64 I64 visit_i64; deserialize_i128 I128 visit_i128;
        deserialize_u8 U8 visit_u8; deserialize_u16 U16 visit_u16; deserialize_u32 U32 visit_u32;
        deserialize_u64 U64 visit_u64; deserialize_u128 U128 visit_u128;
        deserialize_char Char visit_char;
    }
    fn deserialize_f32<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0.next()? {
            Tok::F32(x) => v.visit_f32(f32::from_bits(*x)),
            t => bad(format!("deserialize_f32 where {t:?} was written")),
        }
    }
    fn deserialize_f64<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0.next()? {
            Tok::F64(x) => v.visit_f64(f64::from_bits(*x)),
            t => bad(format!("deserialize_f64 where {t:?} was written")),
        }
    }
    fn deserialize_str<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        self.str(v)
    }
    fn deserialize_string<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        self.str(v)
    }
    fn deserialize_bytes<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        self.byt(v)
    }
    fn deserialize_byte_buf<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        self.byt(v)
    }
    fn deserialize_option<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0.next()? {
            Tok::None => v.visit_none(),
            Tok::Some => v.visit_some(self),
            t => bad(format!("deserialize_option where {t:?} was written")),
        }
    }
    fn deserialize_unit<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0.next()? {
            Tok::Unit | Tok::UnitStruct(_) => v.visit_unit(),
            t => bad(format!("deserialize_unit where {t:?} was written")),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'a>>(self, n: N, v: V) -> Result<V::Value, Bad> {
        self.named(n)?;
        self.deserialize_unit(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'a>>(self, n: N, v: V) -> Result<V::Value, Bad> {
        self.named(n)?;
        match self.0.next()? {
            Tok::NewtypeStruct(_) => v.visit_newtype_struct(self),
            t => bad(format!("deserialize_newtype_struct where {t:?} was written")),
        }
    }
    fn deserialize_seq<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0.next()? {
            Tok::Seq(Some(n)) => self.items(*n, v),
            t => bad(format!("deserialize_seq where {t:?} was written")),
        }
    }
    fn deserialize_tuple<V: Visitor<'a>>(self, n: usize, v: V) -> Result<V::Value, Bad> {
        self.tup(n, v)
    }
    fn deserialize_tuple_struct<V: Visitor<'a>>(self, name: N, n: usize, v: V) -> Result<V::Value, Bad> {
        self.named(name)?;
        self.tup(n, v)
    }
    fn deserialize_struct<V: Visitor<'a>>(self, n: N, f: &'static [N], v: V) -> Result<V::Value, Bad> {
        self.named(n)?;
        if let Some(Tok::Struct(..)) = self.0.t.get(self.0.pos.get()) {
            self.fields(f, self.0.pos.get() + 1)?;
        }
        if let (true, Some(Tok::Struct(..))) = (self.0.cx.names, self.0.t.get(self.0.pos.get())) {
            self.0.next()?;
            return self.by_name(v);
        }
        self.tup(f.len(), v)
    }
    fn deserialize_map<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0.next()? {
            Tok::Map(Some(n)) => {
                let r = v.visit_map(Entries { de: self, n: *n })?;
                self.0.end()?;
                Ok(r)
            }
            t => bad(format!("deserialize_map where {t:?} was written")),
        }
    }
    fn deserialize_enum<V: Visitor<'a>>(self, name: N, variants: &'static [N], v: V) -> Result<V::Value, Bad> {
        let t = self.0.next()?;
        if let Tok::UnitVariant(n, i, w) | Tok::NewtypeVariant(n, i, w) | Tok::TupleVariant(n, i, w, _) | Tok::StructVariant(n, i, w, _) = t {
            if *n != name || variants.get(*i as usize) != Some(w) {
                return bad(format!("enum {name} of {variants:?} where variant {w} of {n} was written"));
            }
        }
        v.visit_enum(Var { de: self, t })
    }
    fn is_human_readable(&self) -> bool {
        self.0.cx.human
    }
}
