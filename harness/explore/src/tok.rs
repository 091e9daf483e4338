//! The serializer that records every data-model call, and can fail at any of them.
use serde::ser::{self, Serialize};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub type N = &'static str;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some,
    Unit,
    UnitStruct(N),
    UnitVariant(N, u32, N),
    NewtypeStruct(N),
    NewtypeVariant(N, u32, N),
    Seq(Option<usize>),
    Tuple(usize),
    TupleStruct(N, usize),
    TupleVariant(N, u32, N, usize),
    Map(Option<usize>),
    Struct(N, usize),
    StructVariant(N, u32, N, usize),
    Key,
    Value,
    Field(N),
    Skip(N),
    End,
}

impl Tok {
    pub fn opens(&self) -> bool {
        matches!(
            self,
            Tok::Seq(_)
                | Tok::Tuple(_)
                | Tok::TupleStruct(..)
                | Tok::TupleVariant(..)
                | Tok::Map(_)
                | Tok::Struct(..)
                | Tok::StructVariant(..)
        )
    }
}

/// Index one past the value which starts at `i`.
pub fn skip(toks: &[Tok], mut i: usize) -> usize {
    let mut depth = 0usize;
    loop {
        match &toks[i] {
            t if t.opens() => depth += 1,
            Tok::End => depth -= 1,
            Tok::Some | Tok::NewtypeStruct(_) | Tok::NewtypeVariant(..) => {
                i += 1;
                continue;
            }
            _ => {}
        }
        i += 1;
        if depth == 0 {
            return i;
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bad(pub String);

impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Bad(m.to_string())
    }
}
impl serde::de::Error for Bad {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Bad(m.to_string())
    }
}

#[derive(Default)]
pub struct St {
    pub toks: Vec<Tok>,
    pub calls: usize,
    pub fail_at: usize, // 1-based, 0 = never
    pub failed: bool,
    pub after: usize,
}

#[derive(Clone)]
pub struct Rec {
    pub st: Rc<RefCell<St>>,
    pub human: bool,
}

pub const FAULT: &str = "format-fault \u{2603} 7741";

impl Rec {
    pub fn new(human: bool, fail_at: usize) -> Rec {
        Rec { st: Rc::new(RefCell::new(St { fail_at, ..St::default() })), human }
    }
    fn call(&self, t: Tok) -> Result<(), Bad> {
        let mut st = self.st.borrow_mut();
        st.calls += 1;
        if st.failed {
            st.after += 1;
            return Err(Bad("called after its failure".into()));
        }
        if st.calls == st.fail_at {
            st.failed = true;
            return Err(Bad(FAULT.into()));
        }
        st.toks.push(t);
        Ok(())
    }
}

pub fn record<T: Serialize + ?Sized>(v: &T, human: bool) -> Result<Vec<Tok>, Bad> {
    let r = Rec::new(human, 0);
    v.serialize(r.clone())?;
    let toks = std::mem::take(&mut r.st.borrow_mut().toks);
    Ok(toks)
}

macro_rules! prim {
    ($($m:ident $t:ty => $v:ident),*) => {$(
        fn $m(self, v: $t) -> Result<(), Bad> { self.call(Tok::$v(v)) }
    )*};
}

impl ser::Serializer for Rec {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Rec;
    type SerializeTuple = Rec;
    type SerializeTupleStruct = Rec;
    type SerializeTupleVariant = Rec;
    type SerializeMap = Rec;
    type SerializeStruct = Rec;
    type SerializeStructVariant = Rec;
    prim!(serialize_bool bool => Bool, serialize_i8 i8 => I8, serialize_i16 i16 => I16,
        serialize_i32 i32 => I32, serialize_i64 i64 => I64, serialize_i128 i128 => I128,
        serialize_u8 u8 => U8, serialize_u16 u16 => U16, serialize_u32 u32 => U32,
        serialize_u64 u64 => U64, serialize_u128 u128 => U128, serialize_char char => Char);
    fn serialize_f32(self, v: f32) -> Result<(), Bad> {
        self.call(Tok::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<(), Bad> {
        self.call(Tok::F64(v.to_bits()))
    }
    fn serialize_str(self, v: &str) -> Result<(), Bad> {
        self.call(Tok::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Bad> {
        self.call(Tok::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<(), Bad> {
        self.call(Tok::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Bad> {
        self.call(Tok::Some)?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Bad> {
        self.call(Tok::Unit)
    }
    fn serialize_unit_struct(self, n: N) -> Result<(), Bad> {
        self.call(Tok::UnitStruct(n))
    }
    fn serialize_unit_variant(self, n: N, i: u32, v: N) -> Result<(), Bad> {
        self.call(Tok::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: N, v: &T) -> Result<(), Bad> {
        self.call(Tok::NewtypeStruct(n))?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: N, i: u32, va: N, v: &T) -> Result<(), Bad> {
        self.call(Tok::NewtypeVariant(n, i, va))?;
        v.serialize(self)
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<Rec, Bad> {
        self.call(Tok::Seq(l))?;
        Ok(self)
    }
    fn serialize_tuple(self, l: usize) -> Result<Rec, Bad> {
        self.call(Tok::Tuple(l))?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, n: N, l: usize) -> Result<Rec, Bad> {
        self.call(Tok::TupleStruct(n, l))?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, n: N, i: u32, v: N, l: usize) -> Result<Rec, Bad> {
        self.call(Tok::TupleVariant(n, i, v, l))?;
        Ok(self)
    }
    fn serialize_map(self, l: Option<usize>) -> Result<Rec, Bad> {
        self.call(Tok::Map(l))?;
        Ok(self)
    }
    fn serialize_struct(self, n: N, l: usize) -> Result<Rec, Bad> {
        self.call(Tok::Struct(n, l))?;
        Ok(self)
    }
    fn serialize_struct_variant(self, n: N, i: u32, v: N, l: usize) -> Result<Rec, Bad> {
        self.call(Tok::StructVariant(n, i, v, l))?;
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

macro_rules! elems {
    ($($tr:ident $m:ident),*) => {$(
        impl ser::$tr for Rec {
            type Ok = ();
            type Error = Bad;
            fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
                v.serialize(self.clone())
            }
            fn end(self) -> Result<(), Bad> { self.call(Tok::End) }
        }
    )*};
}
elems!(SerializeSeq serialize_element, SerializeTuple serialize_element,
    SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

impl ser::SerializeMap for Rec {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.call(Tok::Key)?;
        v.serialize(self.clone())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.call(Tok::Value)?;
        v.serialize(self.clone())
    }
    fn end(self) -> Result<(), Bad> {
        self.call(Tok::End)
    }
}
macro_rules! fields {
    ($($tr:ident),*) => {$(
        impl ser::$tr for Rec {
            type Ok = ();
            type Error = Bad;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: N, v: &T) -> Result<(), Bad> {
                self.call(Tok::Field(k))?;
                v.serialize(self.clone())
            }
            fn skip_field(&mut self, k: N) -> Result<(), Bad> { self.call(Tok::Skip(k)) }
            fn end(self) -> Result<(), Bad> { self.call(Tok::End) }
        }
    )*};
}
fields!(SerializeStruct, SerializeStructVariant);
