//! A value of any concrete type: it makes the serializer calls a type of its shape would make.
use crate::cfg::{self, Cfg};
use crate::tok::N;
use serde::ser::{
    Error, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant,
    SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Pay {
    Unit,
    New(Box<Val>),
    Tup(Vec<Val>),
    Struct(Vec<(N, Val)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Val>),
    Unit,
    UnitStruct(N),
    Newtype(N, Box<Val>),
    /// The flag says whether the length is declared.
    Seq(Vec<Val>, bool),
    Tuple(Vec<Val>),
    TupleStruct(N, Vec<Val>),
    Map(Vec<(Val, Val)>, bool),
    Struct(N, Vec<(N, Val)>),
    /// A struct with one field skipped after the listed ones.
    StructSkip(N, Vec<(N, Val)>, N),
    Var(N, u32, N, Pay),
    /// Text when the format is human-readable, a number when it is not.
    Human,
    /// Written with collect_str.
    Display(String),
    Obj(Cfg, usize, Box<Val>),
    Fail(String),
    Panic,
}

impl Val {
    /// The value without what a format cannot carry.
    pub fn norm(&self) -> Val {
        let b = |v: &Val| Box::new(v.norm());
        let vs = |v: &Vec<Val>| v.iter().map(Val::norm).collect::<Vec<_>>();
        let fs = |v: &Vec<(N, Val)>| v.iter().map(|(k, v)| (*k, v.norm())).collect::<Vec<_>>();
        match self {
            Val::Some(v) => Val::Some(b(v)),
            Val::Newtype(n, v) => Val::Newtype(n, b(v)),
            Val::Seq(v, _) => Val::Seq(vs(v), true),
            Val::Tuple(v) => Val::Tuple(vs(v)),
            Val::TupleStruct(n, v) => Val::TupleStruct(n, vs(v)),
            Val::Map(v, _) => Val::Map(v.iter().map(|(k, v)| (k.norm(), v.norm())).collect(), true),
            Val::Struct(n, f) | Val::StructSkip(n, f, _) => Val::Struct(n, fs(f)),
            Val::Var(n, i, v, p) => Val::Var(
                n,
                *i,
                v,
                match p {
                    Pay::Unit => Pay::Unit,
                    Pay::New(v) => Pay::New(b(v)),
                    Pay::Tup(v) => Pay::Tup(vs(v)),
                    Pay::Struct(f) => Pay::Struct(fs(f)),
                },
            ),
            Val::Display(s) => Val::Str(s.clone()),
            Val::Obj(c, t, v) => Val::Obj(*c, *t, b(v)),
            v => v.clone(),
        }
    }
}

impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        crate::meter::node_ser();
        match self {
            Val::Bool(v) => s.serialize_bool(*v),
            Val::I8(v) => s.serialize_i8(*v),
            Val::I16(v) => s.serialize_i16(*v),
            Val::I32(v) => s.serialize_i32(*v),
            Val::I64(v) => s.serialize_i64(*v),
            Val::I128(v) => s.serialize_i128(*v),
            Val::U8(v) => s.serialize_u8(*v),
            Val::U16(v) => s.serialize_u16(*v),
            Val::U32(v) => s.serialize_u32(*v),
            Val::U64(v) => s.serialize_u64(*v),
            Val::U128(v) => s.serialize_u128(*v),
            Val::F32(v) => s.serialize_f32(f32::from_bits(*v)),
            Val::F64(v) => s.serialize_f64(f64::from_bits(*v)),
            Val::Char(v) => s.serialize_char(*v),
            Val::Str(v) => s.serialize_str(v),
            Val::Bytes(v) => s.serialize_bytes(v),
            Val::None => s.serialize_none(),
            Val::Some(v) => s.serialize_some(&**v),
            Val::Unit => s.serialize_unit(),
            Val::UnitStruct(n) => s.serialize_unit_struct(n),
            Val::Newtype(n, v) => s.serialize_newtype_struct(n, &**v),
            Val::Seq(v, sized) => {
                let mut q = s.serialize_seq(if *sized { Some(v.len()) } else { None })?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            Val::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            Val::TupleStruct(n, v) => {
                let mut q = s.serialize_tuple_struct(n, v.len())?;
                for e in v {
                    q.serialize_field(e)?;
                }
                q.end()
            }
            Val::Map(v, sized) => {
                let mut q = s.serialize_map(if *sized { Some(v.len()) } else { None })?;
                for (i, (k, e)) in v.iter().enumerate() {
                    // both ways of writing an entry
                    if i % 2 == 0 {
                        q.serialize_entry(k, e)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(e)?;
                    }
                }
                q.end()
            }
            Val::Struct(n, f) => {
                let mut q = s.serialize_struct(n, f.len())?;
                for (k, v) in f {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
            Val::StructSkip(n, f, skip) => {
                let mut q = s.serialize_struct(n, f.len())?;
                for (k, v) in f {
                    q.serialize_field(k, v)?;
                }
                q.skip_field(skip)?;
                q.end()
            }
            Val::Var(n, i, va, p) => match p {
                Pay::Unit => s.serialize_unit_variant(n, *i, va),
                Pay::New(v) => s.serialize_newtype_variant(n, *i, va, &**v),
                Pay::Tup(v) => {
                    let mut q = s.serialize_tuple_variant(n, *i, va, v.len())?;
                    for e in v {
                        q.serialize_field(e)?;
                    }
                    q.end()
                }
                Pay::Struct(f) => {
                    let mut q = s.serialize_struct_variant(n, *i, va, f.len())?;
                    for (k, v) in f {
                        q.serialize_field(k, v)?;
                    }
                    q.end()
                }
            },
            Val::Human => {
                if s.is_human_readable() {
                    s.serialize_str("human")
                } else {
                    s.serialize_u32(0x68756d)
                }
            }
            Val::Display(t) => s.collect_str(t),
            Val::Obj(c, t, v) => cfg::ser(*c, *t, v, s),
            Val::Fail(m) => Err(S::Error::custom(m)),
            Val::Panic => std::panic::panic_any("concrete type panics"),
        }
    }
}
