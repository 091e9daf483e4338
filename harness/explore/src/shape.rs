//! A description of any concrete type: it gives the hints, and visits what comes, the way
//! serde_derive and the standard library's impls do.
use crate::cfg::{self, Cfg, NT};
use crate::tok::N;
use crate::val::{Pay, Val};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, IgnoredAny, Visitor};
use std::fmt;

pub type S = &'static Shape;

#[derive(Debug, PartialEq)]
pub enum PayS {
    Unit,
    New(S),
    Tup(Vec<S>),
    Struct(St),
}

#[derive(Debug, PartialEq)]
pub struct St {
    pub name: N,
    pub fields: &'static [N],
    pub shapes: Vec<S>,
    /// Some: the value of a missing field (`#[serde(default)]`).
    pub default: Vec<Option<Val>>,
    pub deny: bool,
}

#[derive(Debug, PartialEq)]
pub enum Shape {
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str,
    BorrowStr,
    Ident,
    Bytes,
    BorrowBytes,
    Unit,
    UnitStruct(N),
    Opt(S),
    Newtype(N, S),
    Seq(S),
    Tuple(Vec<S>),
    TupleStruct(N, Vec<S>),
    Map(S, S),
    Struct(St),
    Enum(N, &'static [N], Vec<PayS>),
    Any,
    Ignored,
    Human,
    /// The flag itself, consuming nothing a format could object to: an option that is absent.
    Obj(Cfg, [S; NT]),
    Fail(&'static str),
    Panic,
}

#[derive(Clone, Copy)]
pub struct Seed(pub S);

fn custom<E: de::Error>(m: &str) -> E {
    E::custom(m)
}

struct OptV(S);
impl<'de> Visitor<'de> for OptV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_none<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Some(Box::new(Seed(self.0).deserialize(d)?)))
    }
}

struct UnitV(N);
impl<'de> Visitor<'de> for UnitV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "unit struct {}", self.0)
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::UnitStruct(self.0))
    }
}

struct NewtypeV(N, S);
impl<'de> Visitor<'de> for NewtypeV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "tuple struct {}", self.0)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Newtype(self.0, Box::new(Seed(self.1).deserialize(d)?)))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match a.next_element_seed(Seed(self.1))? {
            Some(v) => Ok(Val::Newtype(self.0, Box::new(v))),
            None => Err(de::Error::invalid_length(0, &"tuple struct with 1 element")),
        }
    }
}

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("byte array")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::Bytes(v.into()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Val, E> {
        Ok(Val::Bytes(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Bytes(v.into()))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        while let Some(b) = a.next_element()? {
            v.push(b);
        }
        Ok(Val::Bytes(v))
    }
}

struct IdentV;
impl<'de> Visitor<'de> for IdentV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_str<E>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.into()))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        match std::str::from_utf8(v) {
            Ok(s) => Ok(Val::Str(s.into())),
            Err(_) => Err(E::custom("identifier bytes")),
        }
    }
}

struct SeqV(S);
impl<'de> Visitor<'de> for SeqV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        while let Some(e) = a.next_element_seed(Seed(self.0))? {
            v.push(e);
        }
        Ok(Val::Seq(v, true))
    }
}

struct TupV<'s>(&'s [S]);
impl<'de, 's> Visitor<'de> for TupV<'s> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of size {}", self.0.len())
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
        let mut v = Vec::new();
        for (i, s) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(s))? {
                Some(e) => v.push(e),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(v)
    }
}

struct MapV(S, S);
impl<'de> Visitor<'de> for MapV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        // alternate between the two ways of reading an entry
        loop {
            let kv = if v.len() % 2 == 0 {
                a.next_entry_seed(Seed(self.0), Seed(self.1))?
            } else {
                match a.next_key_seed(Seed(self.0))? {
                    Some(k) => Some((k, a.next_value_seed(Seed(self.1))?)),
                    None => None,
                }
            };
            match kv {
                Some(kv) => v.push(kv),
                None => return Ok(Val::Map(v, true)),
            }
        }
    }
}

/// A field or variant name.
struct IdxSeed {
    names: &'static [N],
    variant: bool,
    deny: bool,
}
impl IdxSeed {
    fn unknown<E: de::Error>(&self, v: &str) -> Result<Option<usize>, E> {
        if self.variant {
            Err(E::unknown_variant(v, self.names))
        } else if self.deny {
            Err(E::unknown_field(v, self.names))
        } else {
            Ok(None)
        }
    }
}
impl<'de> DeserializeSeed<'de> for IdxSeed {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for IdxSeed {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.variant { "variant identifier" } else { "field identifier" })
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        if (v as usize) < self.names.len() {
            Ok(Some(v as usize))
        } else if self.variant {
            Err(E::invalid_value(de::Unexpected::Unsigned(v), &&*format!("variant index 0 <= i < {}", self.names.len())))
        } else if self.deny {
            Err(E::invalid_value(de::Unexpected::Unsigned(v), &&*format!("field index 0 <= i < {}", self.names.len())))
        } else {
            Ok(None)
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match self.names.iter().position(|n| *n == v) {
            Some(i) => Ok(Some(i)),
            None => self.unknown(v),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
        match self.names.iter().position(|n| n.as_bytes() == v) {
            Some(i) => Ok(Some(i)),
            None => self.unknown(&String::from_utf8_lossy(v)),
        }
    }
}

struct StructV<'s>(&'s St);
impl<'de, 's> Visitor<'de> for StructV<'s> {
    type Value = Vec<(N, Val)>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "struct {}", self.0.name)
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let st = self.0;
        let mut got: Vec<Option<Val>> = st.fields.iter().map(|_| None).collect();
        while let Some(k) = a.next_key_seed(IdxSeed { names: st.fields, variant: false, deny: st.deny })? {
            match k {
                Some(i) if i < got.len() => {
                    if got[i].is_some() {
                        return Err(de::Error::duplicate_field(st.fields[i]));
                    }
                    got[i] = Some(a.next_value_seed(Seed(st.shapes[i]))?);
                }
                _ => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = Vec::new();
        for (i, g) in got.into_iter().enumerate() {
            let v = match (g, &st.default[i]) {
                (Some(v), _) => v,
                (None, Some(d)) => d.clone(),
                (None, None) => {
                    if let Shape::Opt(_) = st.shapes[i] {
                        Val::None
                    } else {
                        return Err(de::Error::missing_field(st.fields[i]));
                    }
                }
            };
            out.push((st.fields[i], v));
        }
        Ok(out)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let st = self.0;
        let mut out = Vec::new();
        for i in 0..st.fields.len() {
            let v = match a.next_element_seed(Seed(st.shapes[i]))? {
                Some(v) => v,
                None => match &st.default[i] {
                    Some(d) => d.clone(),
                    None => return Err(de::Error::invalid_length(i, &self)),
                },
            };
            out.push((st.fields[i], v));
        }
        Ok(out)
    }
}

struct EnumV(N, &'static [N], &'static [PayS]);
impl<'de> Visitor<'de> for EnumV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "enum {}", self.0)
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        use de::VariantAccess;
        let (i, a) = a.variant_seed(IdxSeed { names: self.1, variant: true, deny: true })?;
        let i = i.unwrap();
        let pay = match &self.2[i] {
            PayS::Unit => {
                a.unit_variant()?;
                Pay::Unit
            }
            PayS::New(s) => Pay::New(Box::new(a.newtype_variant_seed(Seed(s))?)),
            PayS::Tup(s) => Pay::Tup(a.tuple_variant(s.len(), TupV(s))?),
            PayS::Struct(st) => Pay::Struct(a.struct_variant(st.fields, StructV(st))?),
        };
        Ok(Val::Var(self.0, i as u32, self.1[i], pay))
    }
}

struct AnyV;
impl<'de> Visitor<'de> for AnyV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("any value")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
    fn visit_i8<E>(self, v: i8) -> Result<Val, E> {
        Ok(Val::I8(v))
    }
    fn visit_i16<E>(self, v: i16) -> Result<Val, E> {
        Ok(Val::I16(v))
    }
    fn visit_i32<E>(self, v: i32) -> Result<Val, E> {
        Ok(Val::I32(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Val, E> {
        Ok(Val::I64(v))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Val, E> {
        Ok(Val::I128(v))
    }
    fn visit_u8<E>(self, v: u8) -> Result<Val, E> {
        Ok(Val::U8(v))
    }
    fn visit_u16<E>(self, v: u16) -> Result<Val, E> {
        Ok(Val::U16(v))
    }
    fn visit_u32<E>(self, v: u32) -> Result<Val, E> {
        Ok(Val::U32(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Val, E> {
        Ok(Val::U64(v))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Val, E> {
        Ok(Val::U128(v))
    }
    fn visit_f32<E>(self, v: f32) -> Result<Val, E> {
        Ok(Val::F32(v.to_bits()))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Val, E> {
        Ok(Val::F64(v.to_bits()))
    }
    fn visit_char<E>(self, v: char) -> Result<Val, E> {
        Ok(Val::Char(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.into()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::Bytes(v.into()))
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn visit_none<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Some(Box::new(Seed(&Shape::Any).deserialize(d)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Newtype("any", Box::new(Seed(&Shape::Any).deserialize(d)?)))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        SeqV(&Shape::Any).visit_seq(a)
    }
    fn visit_map<A: de::MapAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        MapV(&Shape::Any, &Shape::Any).visit_map(a)
    }
}

struct HumanV(bool);
impl<'de> Visitor<'de> for HumanV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.0 { "the human-readable form" } else { "the compact form" })
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        if self.0 && v == "human" {
            Ok(Val::Human)
        } else {
            Err(E::invalid_value(de::Unexpected::Str(v), &self))
        }
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        if !self.0 && v == 0x68756d {
            Ok(Val::Human)
        } else {
            Err(E::invalid_value(de::Unexpected::Unsigned(v), &self))
        }
    }
}

impl<'de> DeserializeSeed<'de> for Seed {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        crate::meter::node_de();
        macro_rules! p {
            ($t:ty, $v:ident) => {
                <$t>::deserialize(d).map(Val::$v)
            };
        }
        match self.0 {
            Shape::Bool => p!(bool, Bool),
            Shape::I8 => p!(i8, I8),
            Shape::I16 => p!(i16, I16),
            Shape::I32 => p!(i32, I32),
            Shape::I64 => p!(i64, I64),
            Shape::I128 => p!(i128, I128),
            Shape::U8 => p!(u8, U8),
            Shape::U16 => p!(u16, U16),
            Shape::U32 => p!(u32, U32),
            Shape::U64 => p!(u64, U64),
            Shape::U128 => p!(u128, U128),
            Shape::F32 => f32::deserialize(d).map(|v| Val::F32(v.to_bits())),
            Shape::F64 => f64::deserialize(d).map(|v| Val::F64(v.to_bits())),
            Shape::Char => p!(char, Char),
            Shape::Str => p!(String, Str),
            Shape::BorrowStr => <&'de str>::deserialize(d).map(|s| Val::Str(s.into())),
            Shape::Ident => d.deserialize_identifier(IdentV),
            Shape::Bytes => d.deserialize_byte_buf(BytesV),
            Shape::BorrowBytes => <&'de [u8]>::deserialize(d).map(|s| Val::Bytes(s.into())),
            Shape::Unit => <()>::deserialize(d).map(|()| Val::Unit),
            Shape::UnitStruct(n) => d.deserialize_unit_struct(n, UnitV(n)),
            Shape::Opt(s) => d.deserialize_option(OptV(s)),
            Shape::Newtype(n, s) => d.deserialize_newtype_struct(n, NewtypeV(n, s)),
            Shape::Seq(s) => d.deserialize_seq(SeqV(s)),
            Shape::Tuple(s) => d.deserialize_tuple(s.len(), TupV(s)).map(Val::Tuple),
            Shape::TupleStruct(n, s) => d.deserialize_tuple_struct(n, s.len(), TupV(s)).map(|v| Val::TupleStruct(n, v)),
            Shape::Map(k, v) => d.deserialize_map(MapV(k, v)),
            Shape::Struct(st) => d.deserialize_struct(st.name, st.fields, StructV(st)).map(|v| Val::Struct(st.name, v)),
            Shape::Enum(n, vs, ps) => d.deserialize_enum(n, vs, EnumV(n, vs, ps)),
            Shape::Any => d.deserialize_any(AnyV),
            Shape::Ignored => IgnoredAny::deserialize(d).map(|_| Val::Unit),
            Shape::Human => {
                if d.is_human_readable() {
                    d.deserialize_str(HumanV(true))
                } else {
                    d.deserialize_u32(HumanV(false))
                }
            }
            Shape::Obj(c, slots) => {
                let frame = cfg::push(*slots);
                let r = cfg::de(*c, d);
                drop(frame);
                r.map(|(t, v)| Val::Obj(*c, t, Box::new(v)))
            }
            Shape::Fail(m) => Err(custom(m)),
            Shape::Panic => std::panic::panic_any("concrete type panics"),
        }
    }
}
