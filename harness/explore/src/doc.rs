//! Documents, and a self-describing deserializer over them in several styles.
use crate::tok::{skip, Bad, Tok, FAULT, N};
use serde::de::{self, DeserializeSeed, Deserializer, Error as _, Unexpected, Visitor};
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Null,
    None,
    Some(Box<Doc>),
    Newtype(Box<Doc>),
    Seq(Vec<Doc>),
    Map(Vec<(Doc, Doc)>),
    /// Something the format can only step over.
    Opaque,
}

pub fn s(v: &str) -> Doc {
    Doc::Str(v.into())
}

/// How a format shows the data model.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    /// Like JSON: 64-bit numbers, text keys, null.
    Json,
    /// Like MessagePack: each number as narrow as its value, bytes, any keys.
    Narrow,
    /// Like RON: widths, chars, explicit options and newtypes, any keys.
    Typed,
    /// Like CBOR: null is "none".
    Cbor,
    /// Like TOML, or serde's own value deserializers: whatever is asked for, what is there is shown.
    Loose,
}
pub const STYLES: [Style; 5] = [Style::Json, Style::Narrow, Style::Typed, Style::Cbor, Style::Loose];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Text {
    Owned,
    Transient,
    Borrowed,
}
pub const TEXTS: [Text; 3] = [Text::Borrowed, Text::Transient, Text::Owned];

/// What a format announces of the entries and elements still to come.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Hint {
    None,
    Exact,
    Zero,
    One,
    Fewer,
    More,
    Huge,
    Max,
}
pub const HINTS: [Hint; 7] = [Hint::Exact, Hint::Zero, Hint::One, Hint::Fewer, Hint::More, Hint::Huge, Hint::Max];

pub struct Cx {
    pub hint: Hint,
    pub style: Style,
    pub text: Text,
    pub human: bool,
    /// In a format that does not describe itself: the names of fields and variants are in the data.
    pub names: bool,
    pub fail_at: usize,
    pub calls: Cell<usize>,
    pub failed: Cell<bool>,
    pub after: Cell<usize>,
    /// A digest of which calls were made, in order.
    pub trace: Cell<u64>,
}
impl Cx {
    pub fn new(style: Style, text: Text, human: bool) -> Cx {
        Cx { hint: Hint::None, style, text, human, names: false, fail_at: 0, calls: Cell::new(0), failed: Cell::new(false), after: Cell::new(0), trace: Cell::new(0) }
    }
    pub fn compact(text: Text, human: bool, names: bool) -> Cx {
        let mut cx = Cx::new(Style::Typed, text, human);
        cx.names = names;
        cx
    }
    fn left(&self, n: usize) -> Option<usize> {
        Some(match self.hint {
            Hint::None => return None,
            Hint::Exact => n,
            Hint::Zero => 0,
            Hint::One => 1,
            Hint::Fewer => n.saturating_sub(1),
            Hint::More => n + 1,
            Hint::Huge => 1 << 36,
            Hint::Max => usize::MAX,
        })
    }
    #[track_caller]
    pub fn call(&self) -> Result<(), Bad> {
        let at = std::panic::Location::caller();
        self.trace.set((self.trace.get() ^ (u64::from(at.line()) << 8 | u64::from(at.column()))).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23));
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
            return Err(Bad("called after its failure".into()));
        }
        if n == self.fail_at {
            self.failed.set(true);
            return Err(Bad(FAULT.into()));
        }
        Ok(())
    }
}

fn int(style: Style, neg: bool, mag: u128, tok: &Tok) -> Doc {
    match style {
        Style::Typed => match *tok {
            Tok::U8(v) => Doc::U8(v),
            Tok::U16(v) => Doc::U16(v),
            Tok::U32(v) => Doc::U32(v),
            Tok::U64(v) => Doc::U64(v),
            Tok::U128(v) => Doc::U128(v),
            Tok::I8(v) => Doc::I8(v),
            Tok::I16(v) => Doc::I16(v),
            Tok::I32(v) => Doc::I32(v),
            Tok::I64(v) => Doc::I64(v),
            Tok::I128(v) => Doc::I128(v),
            _ => unreachable!(),
        },
        _ if neg => {
            let v = (mag as i128).wrapping_neg();
            if style != Style::Json {
                if let Ok(v) = i8::try_from(v) {
                    return Doc::I8(v);
                }
                if let Ok(v) = i16::try_from(v) {
                    return Doc::I16(v);
                }
                if let Ok(v) = i32::try_from(v) {
                    return Doc::I32(v);
                }
            }
            match i64::try_from(v) {
                Ok(v) => Doc::I64(v),
                Err(_) => Doc::I128(v),
            }
        }
        _ => {
            if style != Style::Json {
                if let Ok(v) = u8::try_from(mag) {
                    return Doc::U8(v);
                }
                if let Ok(v) = u16::try_from(mag) {
                    return Doc::U16(v);
                }
                if let Ok(v) = u32::try_from(mag) {
                    return Doc::U32(v);
                }
            }
            match u64::try_from(mag) {
                Ok(v) => Doc::U64(v),
                Err(_) => Doc::U128(mag),
            }
        }
    }
}

fn num(t: &Tok) -> Option<(bool, u128)> {
    Some(match *t {
        Tok::U8(v) => (false, v.into()),
        Tok::U16(v) => (false, v.into()),
        Tok::U32(v) => (false, v.into()),
        Tok::U64(v) => (false, v.into()),
        Tok::U128(v) => (false, v),
        Tok::I8(v) => (v < 0, v.unsigned_abs().into()),
        Tok::I16(v) => (v < 0, v.unsigned_abs().into()),
        Tok::I32(v) => (v < 0, v.unsigned_abs().into()),
        Tok::I64(v) => (v < 0, v.unsigned_abs().into()),
        Tok::I128(v) => (v < 0, v.unsigned_abs()),
        _ => return None,
    })
}

fn key_text(d: Doc) -> Option<Doc> {
    Some(Doc::Str(match d {
        Doc::Str(s) => s,
        Doc::Bool(b) => b.to_string(),
        Doc::U64(v) => v.to_string(),
        Doc::I64(v) => v.to_string(),
        Doc::U128(v) => v.to_string(),
        Doc::I128(v) => v.to_string(),
        _ => return None,
    }))
}

/// The document a format of this style would store for these calls; None if it has no such form.
pub fn from_toks(t: &[Tok], st: Style) -> Option<Doc> {
    let (d, n) = build(t, 0, st)?;
    assert_eq!(n, t.len());
    Some(d)
}

fn build(t: &[Tok], i: usize, st: Style) -> Option<(Doc, usize)> {
    let wrap = |d: Doc, v: N| Doc::Map(vec![(s(v), d)]);
    if let Some((neg, mag)) = num(&t[i]) {
        return Some((int(st, neg, mag, &t[i]), i + 1));
    }
    let typed = st == Style::Typed;
    Some(match &t[i] {
        Tok::Bool(b) => (Doc::Bool(*b), i + 1),
        Tok::F32(b) => {
            let f = f32::from_bits(*b);
            let json = st == Style::Json;
            if json && !f.is_finite() {
                return None;
            }
            (if json { Doc::F64(f.into()) } else { Doc::F32(f) }, i + 1)
        }
        Tok::F64(b) => {
            let f = f64::from_bits(*b);
            if st == Style::Json && !f.is_finite() {
                return None;
            }
            // the narrowest form that keeps the value
            if (st == Style::Narrow || st == Style::Cbor) && f64::from(f as f32).to_bits() == *b {
                (Doc::F32(f as f32), i + 1)
            } else {
                (Doc::F64(f), i + 1)
            }
        }
        Tok::Char(c) => (if typed { Doc::Char(*c) } else { Doc::Str(c.to_string()) }, i + 1),
        Tok::Str(v) => (Doc::Str(v.clone()), i + 1),
        Tok::Bytes(b) => (
            if st == Style::Json { Doc::Seq(b.iter().map(|b| Doc::U64((*b).into())).collect()) } else { Doc::Bytes(b.clone()) },
            i + 1,
        ),
        Tok::None => (if typed { Doc::None } else { Doc::Null }, i + 1),
        Tok::Some => {
            let (d, n) = build(t, i + 1, st)?;
            (if typed { Doc::Some(Box::new(d)) } else { d }, n)
        }
        Tok::Unit | Tok::UnitStruct(_) => (Doc::Null, i + 1),
        Tok::UnitVariant(_, _, v) => (s(v), i + 1),
        Tok::NewtypeStruct(_) => {
            let (d, n) = build(t, i + 1, st)?;
            (if typed { Doc::Newtype(Box::new(d)) } else { d }, n)
        }
        Tok::NewtypeVariant(_, _, v) => {
            let (d, n) = build(t, i + 1, st)?;
            (wrap(d, v), n)
        }
        Tok::Seq(_) | Tok::Tuple(_) | Tok::TupleStruct(..) | Tok::TupleVariant(..) => {
            let mut v = Vec::new();
            let mut j = i + 1;
            while t[j] != Tok::End {
                let (d, n) = build(t, j, st)?;
                v.push(d);
                j = n;
            }
            let d = Doc::Seq(v);
            (if let Tok::TupleVariant(_, _, n, _) = &t[i] { wrap(d, n) } else { d }, j + 1)
        }
        Tok::Map(_) | Tok::Struct(..) | Tok::StructVariant(..) => {
            let mut v = Vec::new();
            let mut j = i + 1;
            while t[j] != Tok::End {
                let k;
                match &t[j] {
                    Tok::Skip(_) => {
                        j += 1;
                        continue;
                    }
                    Tok::Field(f) => {
                        k = s(f);
                        j += 1;
                    }
                    Tok::Key => {
                        let (d, n) = build(t, j + 1, st)?;
                        k = if st == Style::Json { key_text(d)? } else { d };
                        assert_eq!(t[n], Tok::Value, "a key without its value: {t:?}");
                        j = n + 1;
                    }
                    _ => panic!("neither key nor field in {t:?}"),
                }
                let (d, n) = build(t, j, st)?;
                v.push((k, d));
                j = n;
            }
            let d = Doc::Map(v);
            (if let Tok::StructVariant(_, _, n, _) = &t[i] { wrap(d, n) } else { d }, j + 1)
        }
        other => panic!("not a value: {other:?} at {i} (of {})", skip(t, 0)),
    })
}

#[derive(Clone, Copy)]
pub struct De<'de> {
    pub d: &'de Doc,
    pub cx: &'de Cx,
    pub key: bool,
}
impl<'de> De<'de> {
    pub fn new(d: &'de Doc, cx: &'de Cx) -> De<'de> {
        De { d, cx, key: false }
    }
    fn sub(&self, d: &'de Doc) -> De<'de> {
        De { d, cx: self.cx, key: false }
    }
    fn str<V: Visitor<'de>>(self, t: &'de str, v: V) -> Result<V::Value, Bad> {
        match self.cx.text {
            Text::Owned => v.visit_string(t.into()),
            Text::Transient => v.visit_str(&t.to_string()),
            Text::Borrowed => v.visit_borrowed_str(t),
        }
    }
    fn bytes<V: Visitor<'de>>(self, t: &'de [u8], v: V) -> Result<V::Value, Bad> {
        match self.cx.text {
            Text::Owned => v.visit_byte_buf(t.into()),
            Text::Transient => v.visit_bytes(&t.to_vec()),
            Text::Borrowed => v.visit_borrowed_bytes(t),
        }
    }
    fn seq<V: Visitor<'de>>(self, q: &'de [Doc], v: V) -> Result<V::Value, Bad> {
        let mut a = SeqA { de: self, q, i: 0 };
        let r = v.visit_seq(&mut a)?;
        if a.i == q.len() {
            Ok(r)
        } else {
            Err(Bad("left-over elements".into()))
        }
    }
    fn map<V: Visitor<'de>>(self, m: &'de [(Doc, Doc)], v: V) -> Result<V::Value, Bad> {
        let mut a = MapA { de: self, m, i: 0, value: false };
        let r = v.visit_map(&mut a)?;
        if a.i == m.len() && !a.value {
            Ok(r)
        } else {
            Err(Bad("left-over entries".into()))
        }
    }
    fn any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.d {
            Doc::Bool(x) => v.visit_bool(*x),
            Doc::U8(x) => v.visit_u8(*x),
            Doc::U16(x) => v.visit_u16(*x),
            Doc::U32(x) => v.visit_u32(*x),
            Doc::U64(x) => v.visit_u64(*x),
            Doc::U128(x) => v.visit_u128(*x),
            Doc::I8(x) => v.visit_i8(*x),
            Doc::I16(x) => v.visit_i16(*x),
            Doc::I32(x) => v.visit_i32(*x),
            Doc::I64(x) => v.visit_i64(*x),
            Doc::I128(x) => v.visit_i128(*x),
            Doc::F32(x) => v.visit_f32(*x),
            Doc::F64(x) => v.visit_f64(*x),
            Doc::Char(x) => v.visit_char(*x),
            Doc::Str(x) => self.str(x, v),
            Doc::Bytes(x) => self.bytes(x, v),
            Doc::Null if self.cx.style == Style::Cbor => v.visit_none(),
            Doc::Null => v.visit_unit(),
            Doc::None => v.visit_none(),
            Doc::Some(x) => v.visit_some(self.sub(x)),
            Doc::Newtype(x) => v.visit_newtype_struct(self.sub(x)),
            Doc::Seq(x) => self.seq(x, v),
            Doc::Map(x) => self.map(x, v),
            Doc::Opaque => self.wrong(&v),
        }
    }
    /// Not what was asked for.
    fn other<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        if self.cx.style == Style::Loose {
            self.any(v)
        } else {
            self.wrong(&v)
        }
    }
    fn wrong<T>(self, exp: &dyn de::Expected) -> Result<T, Bad> {
        Err(Bad::invalid_type(Unexpected::Other("document node"), exp))
    }
}

struct SeqA<'de> {
    de: De<'de>,
    q: &'de [Doc],
    i: usize,
}
impl<'de> de::SeqAccess<'de> for SeqA<'de> {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        self.de.cx.call()?;
        match self.q.get(self.i) {
            None => Ok(None),
            Some(d) => {
                self.i += 1;
                seed.deserialize(self.de.sub(d)).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.de.cx.left(self.q.len() - self.i)
    }
}
struct MapA<'de> {
    de: De<'de>,
    m: &'de [(Doc, Doc)],
    i: usize,
    value: bool,
}
impl<'de> de::MapAccess<'de> for MapA<'de> {
    type Error = Bad;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        self.de.cx.call()?;
        if self.value {
            return Err(Bad("harness: a key was asked for before the value".into()));
        }
        match self.m.get(self.i) {
            None => Ok(None),
            Some((k, _)) => {
                self.value = true;
                seed.deserialize(De { d: k, cx: self.de.cx, key: self.de.cx.style == Style::Json }).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Bad> {
        self.de.cx.call()?;
        if !self.value {
            return Err(Bad("harness: a value was asked for before the key".into()));
        }
        let d = &self.m[self.i].1;
        self.i += 1;
        self.value = false;
        seed.deserialize(self.de.sub(d))
    }
    fn size_hint(&self) -> Option<usize> {
        self.de.cx.left(self.m.len() - self.i)
    }
}

struct EnumA<'de> {
    de: De<'de>,
    name: &'de Doc,
    pay: Option<&'de Doc>,
}
impl<'de> de::EnumAccess<'de> for EnumA<'de> {
    type Error = Bad;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self), Bad> {
        self.de.cx.call()?;
        let v = seed.deserialize(self.de.sub(self.name))?;
        Ok((v, self))
    }
}
impl<'de> de::VariantAccess<'de> for EnumA<'de> {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        self.de.cx.call()?;
        match self.pay {
            None => Ok(()),
            Some(d) => de::Deserialize::deserialize(self.de.sub(d)),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Bad> {
        self.de.cx.call()?;
        match self.pay {
            None => self.de.wrong(&"newtype variant"),
            Some(d) => seed.deserialize(self.de.sub(d)),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, Bad> {
        self.de.cx.call()?;
        match self.pay {
            None => self.de.wrong(&"tuple variant"),
            Some(d) => self.de.sub(d).deserialize_tuple(len, v),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [N], v: V) -> Result<V::Value, Bad> {
        self.de.cx.call()?;
        match self.pay {
            None => self.de.wrong(&"struct variant"),
            Some(d) => self.de.sub(d).deserialize_struct("", f, v),
        }
    }
}

macro_rules! as_any {
    ($($m:ident)*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
            self.cx.call()?;
            self.any(v)
        }
    )*};
}
macro_rules! keyed {
    ($($m:ident $t:ty => $vis:ident;)*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
            self.cx.call()?;
            if self.key {
                if let Doc::Str(t) = self.d {
                    if let Ok(x) = t.parse::<$t>() {
                        return v.$vis(x);
                    }
                }
            }
            self.any(v)
        }
    )*};
}

impl<'de> Deserializer<'de> for De<'de> {
    type Error = Bad;
    as_any! { deserialize_any deserialize_f32 deserialize_f64 }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::Char(_) | Doc::Str(_) => self.any(v),
            _ => self.other(v),
        }
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::Str(_) | Doc::Bytes(_) => self.any(v),
            _ => self.other(v),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.deserialize_str(v)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.d {
            Doc::U8(n) => {
                self.cx.call()?;
                v.visit_u8(*n)
            }
            _ => self.deserialize_str(v),
        }
    }
    keyed! {
        deserialize_bool bool => visit_bool;
        deserialize_i8 i8 => visit_i8; deserialize_i16 i16 => visit_i16;
        deserialize_i32 i32 => visit_i32; deserialize_i64 i64 => visit_i64; deserialize_i128 i128 => visit_i128;
        deserialize_u8 u8 => visit_u8; deserialize_u16 u16 => visit_u16;
        deserialize_u32 u32 => visit_u32; deserialize_u64 u64 => visit_u64; deserialize_u128 u128 => visit_u128;
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::Bytes(_) | Doc::Str(_) | Doc::Seq(_) => self.any(v),
            _ => self.other(v),
        }
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::None => v.visit_none(),
            Doc::Null if self.cx.style == Style::Cbor => v.visit_none(),
            Doc::Null => v.visit_unit(),
            Doc::Some(d) => v.visit_some(self.sub(d)),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::Null | Doc::None => v.visit_unit(),
            _ => self.other(v),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: N, v: V) -> Result<V::Value, Bad> {
        self.deserialize_unit(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: N, v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::Newtype(d) => v.visit_newtype_struct(self.sub(d)),
            _ => v.visit_newtype_struct(self),
        }
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::Seq(q) => self.seq(q, v),
            _ => self.other(v),
        }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_seq(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: N, _: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_seq(v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::Map(m) => self.map(m, v),
            _ => self.other(v),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: N, _: &'static [N], v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::Map(m) => self.map(m, v),
            Doc::Seq(q) => self.seq(q, v),
            _ => self.other(v),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: N, _: &'static [N], v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        match self.d {
            Doc::Str(_) => v.visit_enum(EnumA { de: self, name: self.d, pay: None }),
            Doc::Map(m) if m.len() == 1 => v.visit_enum(EnumA { de: self, name: &m[0].0, pay: Some(&m[0].1) }),
            _ => self.other(v),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.cx.call()?;
        if self.cx.style == Style::Loose && *self.d != Doc::Opaque {
            return self.any(v);
        }
        v.visit_unit()
    }
    fn is_human_readable(&self) -> bool {
        self.cx.human
    }
}

impl serde::Serialize for Doc {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self {
            Doc::Bool(x) => z.serialize_bool(*x),
            Doc::U8(x) => z.serialize_u8(*x),
            Doc::U16(x) => z.serialize_u16(*x),
            Doc::U32(x) => z.serialize_u32(*x),
            Doc::U64(x) => z.serialize_u64(*x),
            Doc::U128(x) => z.serialize_u128(*x),
            Doc::I8(x) => z.serialize_i8(*x),
            Doc::I16(x) => z.serialize_i16(*x),
            Doc::I32(x) => z.serialize_i32(*x),
            Doc::I64(x) => z.serialize_i64(*x),
            Doc::I128(x) => z.serialize_i128(*x),
            Doc::F32(x) => z.serialize_f32(*x),
            Doc::F64(x) => z.serialize_f64(*x),
            Doc::Char(x) => z.serialize_char(*x),
            Doc::Str(x) => z.serialize_str(x),
            Doc::Bytes(x) => z.serialize_bytes(x),
            Doc::Null | Doc::None | Doc::Opaque => z.serialize_unit(),
            Doc::Some(x) | Doc::Newtype(x) => x.serialize(z),
            Doc::Seq(q) => {
                let mut s = z.serialize_seq(Some(q.len()))?;
                for e in q {
                    s.serialize_element(e)?;
                }
                s.end()
            }
            Doc::Map(m) => {
                let mut s = z.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    s.serialize_entry(k, v)?;
                }
                s.end()
            }
        }
    }
}
