//! What each way of tagging writes, and what each document means.
use crate::cfg::{self, Cfg, Repr, TAGS};
use crate::doc::{Cx, De, Doc};
use crate::shape::{PayS, Seed, Shape, S};
use crate::tok::{skip, Bad, Tok};
use crate::val::{Pay, Val};
use serde::de::{DeserializeSeed, IntoDeserializer};

pub const TRAIT: &str = "Tr";

fn key(k: &str) -> [Tok; 2] {
    [Tok::Key, Tok::Str(k.into())]
}
fn tag_entry(tag: &str, variant: &str) -> [Tok; 4] {
    [Tok::Key, Tok::Str(tag.into()), Tok::Value, Tok::Str(variant.into())]
}

/// The calls for a trait object, given the calls of the value alone.
pub fn ser(repr: Repr, variant: &str, t: &[Tok]) -> Vec<Tok> {
    let mut o = Vec::new();
    match repr {
        Repr::Ext => {
            o.push(Tok::Map(Some(1)));
            o.extend(key(variant));
            o.push(Tok::Value);
            o.extend_from_slice(t);
            o.push(Tok::End);
        }
        Repr::Adj { tag, content, .. } => {
            o.push(Tok::Struct(TRAIT, 2));
            o.push(Tok::Field(tag));
            o.push(Tok::Str(variant.into()));
            o.push(Tok::Field(content));
            o.extend_from_slice(t);
            o.push(Tok::End);
        }
        Repr::Int { tag, .. } => internal(tag, variant, t, &mut o),
    }
    o
}

fn internal(tag: &str, variant: &str, t: &[Tok], o: &mut Vec<Tok>) {
    let entry = |o: &mut Vec<Tok>, k: &str, v: &[Tok]| {
        o.push(Tok::Map(Some(2)));
        o.extend(tag_entry(tag, variant));
        o.extend(key(k));
        o.push(Tok::Value);
        o.extend_from_slice(v);
        o.push(Tok::End);
    };
    match &t[0] {
        Tok::NewtypeStruct(_) => internal(tag, variant, &t[1..], o),
        Tok::Unit | Tok::UnitStruct(_) | Tok::None => {
            o.push(Tok::Map(Some(1)));
            o.extend(tag_entry(tag, variant));
            o.push(Tok::End);
        }
        Tok::Some => entry(o, "value", &t[1..]),
        Tok::UnitVariant(_, _, v) => entry(o, v, &[Tok::Unit]),
        Tok::NewtypeVariant(_, _, v) => entry(o, v, &t[1..]),
        Tok::TupleVariant(_, _, v, len) => {
            let mut p = t.to_vec();
            p[0] = Tok::TupleStruct(v, *len);
            entry(o, v, &p);
        }
        Tok::StructVariant(_, _, v, len) => {
            let mut p = t.to_vec();
            p[0] = Tok::Struct(v, *len);
            entry(o, v, &p);
        }
        Tok::Map(len) => {
            o.push(Tok::Map(len.map(|n| n + 1)));
            o.extend(tag_entry(tag, variant));
            o.extend_from_slice(&t[1..]);
        }
        Tok::Struct(..) => {
            let mut entries = Vec::new();
            let mut n = 1;
            let mut i = 1;
            while t[i] != Tok::End {
                match &t[i] {
                    Tok::Skip(_) => i += 1,
                    Tok::Field(k) => {
                        let j = skip(t, i + 1);
                        // a field that repeats the tag is not written again
                        if *k != tag {
                            n += 1;
                            entries.extend(key(k));
                            entries.push(Tok::Value);
                            entries.extend_from_slice(&t[i + 1..j]);
                        }
                        i = j;
                    }
                    x => panic!("{x:?} in a struct"),
                }
            }
            o.push(Tok::Map(Some(n)));
            o.extend(tag_entry(tag, variant));
            o.extend(entries);
            o.push(Tok::End);
        }
        _ => entry(o, "value", t),
    }
}

/// The same calls, without what is only a hint: an undeclared length is the actual one, a skipped
/// field is not mentioned. Declared lengths stay, so a wrong one differs from the right one.
pub fn hints(t: &[Tok]) -> Vec<Tok> {
    let mut o: Vec<Tok> = Vec::new();
    let mut open: Vec<(usize, usize)> = Vec::new();
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            Tok::Skip(_) => {}
            Tok::End => {
                let (at, n) = open.pop().unwrap();
                match &mut o[at] {
                    Tok::Seq(l @ None) | Tok::Map(l @ None) => *l = Some(n),
                    _ => {}
                }
                o.push(Tok::End);
            }
            x => {
                // does a value or an entry of the container begin here?
                let counts = match o.last() {
                    Some(Tok::Value | Tok::Field(_) | Tok::Some | Tok::NewtypeStruct(_) | Tok::NewtypeVariant(..)) => false,
                    Some(Tok::Key) => false,
                    _ => *x != Tok::Value,
                };
                if counts {
                    if let Some((_, n)) = open.last_mut() {
                        *n += 1;
                    }
                }
                if x.opens() {
                    open.push((o.len(), 0));
                }
                o.push(x.clone());
            }
        }
        i += 1;
    }
    o
}

/// Every declared length is the number of entries that follow. Returns the first that is not.
pub fn lengths(t: &[Tok]) -> Result<(), String> {
    let mut none: Vec<Tok> = t.to_vec();
    for x in &mut none {
        match x {
            Tok::Seq(l) | Tok::Map(l) => *l = None,
            Tok::Tuple(_) | Tok::TupleStruct(..) | Tok::TupleVariant(..) => *x = Tok::Seq(None),
            Tok::Struct(..) | Tok::StructVariant(..) => *x = Tok::Seq(None),
            _ => {}
        }
    }
    let actual = hints(&none);
    let declared: Vec<&Tok> = t.iter().filter(|x| !matches!(x, Tok::Skip(_))).collect();
    for (d, a) in declared.iter().zip(&actual) {
        let n = match a {
            Tok::Seq(Some(n)) | Tok::Map(Some(n)) => *n,
            _ => continue,
        };
        let m = match d {
            Tok::Seq(Some(m)) | Tok::Map(Some(m)) | Tok::Tuple(m) | Tok::TupleStruct(_, m) | Tok::TupleVariant(_, _, _, m) => *m,
            Tok::Struct(_, m) | Tok::StructVariant(_, _, _, m) => *m,
            _ => continue,
        };
        if m != n {
            return Err(format!("{d:?} is followed by {n} entries"));
        }
    }
    Ok(())
}

/// Why a document is not an object of the trait.
#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    Container,
    NoTag,
    NoContent,
    DupTag,
    DupContent,
    TagKind,
    Unknown(String),
    Denied(String),
    Extra,
    Empty,
    Short(usize),
    /// The concrete type, or the format, rejects the content.
    Content(String),
}

type R = Result<(usize, Val), Why>;

pub fn slot(ty: usize) -> usize {
    match ty {
        1 | 7 | 8 => 1,
        _ => 0,
    }
}

pub fn direct(shape: S, d: &Doc, cx: &Cx) -> Result<Val, Bad> {
    let cx = Cx::new(cx.style, cx.text, cx.human);
    // lifetimes: the result owns its data
    let r = Seed(shape).deserialize(De::new(d, &cx));
    r
}

fn content(shape: S, d: &Doc, cx: &Cx) -> Result<Val, Why> {
    direct(shape, d, cx).map_err(|e| Why::Content(e.0))
}

fn by_name(s: &str) -> Result<usize, Why> {
    TAGS.iter().position(|t| *t == s).ok_or_else(|| Why::Unknown(s.into()))
}
fn lookup(d: &Doc) -> Result<usize, Why> {
    match d {
        Doc::Str(s) => by_name(s),
        _ => Err(Why::TagKind),
    }
}

/// What the document means to the trait, when its types have these shapes.
pub fn de(c: Cfg, slots: [S; cfg::NT], d: &Doc, cx: &Cx) -> R {
    let _f = cfg::push(slots);
    match c.repr() {
        Repr::Ext => {
            let Doc::Map(m) = d else { return Err(Why::Container) };
            let Some((k, v)) = m.first() else { return Err(Why::Empty) };
            let ty = lookup(k)?;
            let v = content(slots[slot(ty)], v, cx)?;
            if m.len() > 1 {
                return Err(Why::Extra);
            }
            Ok((ty, v))
        }
        Repr::Int { tag, default } => {
            let Doc::Map(m) = d else { return Err(Why::Container) };
            let mut rest = Vec::new();
            let mut ty = None;
            let mut first = false;
            for (k, v) in m {
                match k {
                    Doc::Str(name) if name == tag && ty.is_none() => {
                        ty = Some(lookup(v)?);
                        first = rest.is_empty();
                    }
                    Doc::Str(_) => rest.push((k.clone(), v.clone())),
                    // a key that is not text stands only behind a tag that is first
                    _ if ty.is_some() && first => rest.push((k.clone(), v.clone())),
                    _ => return Err(Why::Container),
                }
            }
            let ty = match (ty, default) {
                (Some(t), _) => t,
                (None, Some(t)) => by_name(t)?,
                (None, None) => return Err(Why::NoTag),
            };
            internal_de(slots[slot(ty)], &rest, cx).map(|v| (ty, v))
        }
        Repr::Adj { tag, content: ck, default, deny } => match d {
            Doc::Seq(q) => {
                let Some(t) = q.first() else { return Err(Why::Short(0)) };
                let ty = lookup(t)?;
                let Some(c) = q.get(1) else { return Err(Why::Short(1)) };
                let v = content(slots[slot(ty)], c, cx)?;
                if q.len() > 2 {
                    return Err(Why::Extra);
                }
                Ok((ty, v))
            }
            Doc::Map(m) => {
                let (mut t, mut con) = (None, None);
                for (k, v) in m {
                    let Doc::Str(name) = k else { return Err(Why::Container) };
                    if name == tag {
                        if t.is_some() {
                            return Err(Why::DupTag);
                        }
                        t = Some(lookup(v)?);
                    } else if name == ck {
                        if con.is_some() {
                            return Err(Why::DupContent);
                        }
                        con = Some(v);
                    } else if deny {
                        return Err(Why::Denied(name.clone()));
                    }
                }
                match (t, default, con) {
                    (Some(ty), _, Some(c)) => content(slots[slot(ty)], c, cx).map(|v| (ty, v)),
                    (None, Some(ty), Some(c)) => {
                        let ty = by_name(ty)?;
                        content(slots[slot(ty)], c, cx).map(|v| (ty, v))
                    }
                    (None, None, _) => Err(Why::NoTag),
                    (None, Some(_), None) => Err(Why::NoContent),
                    (Some(ty), _, None) => absent(slots[slot(ty)]).map(|v| (ty, v)),
                }
            }
            _ => Err(Why::Container),
        },
    }
}

/// A type that needs no content decodes from nothing.
fn absent(s: S) -> Result<Val, Why> {
    let unit: serde::de::value::UnitDeserializer<Bad> = ().into_deserializer();
    Seed(s).deserialize(unit).map_err(|_| Why::NoContent)
}

/// Whether "no content" is a matter of course for the type, one way or the other.
pub fn absent_is_clear(s: S) -> bool {
    match s {
        Shape::Newtype(..) | Shape::Any | Shape::Ignored | Shape::Obj(..) => false,
        _ => true,
    }
}

fn internal_de(s: S, e: &[(Doc, Doc)], cx: &Cx) -> Result<Val, Why> {
    let map = || Doc::Map(e.to_vec());
    let is = |d: &Doc, k: &str| matches!(d, Doc::Str(s) if s == k);
    let only = |k: &str| -> Result<&Doc, Why> {
        match e.first() {
            None => Err(Why::NoContent),
            Some((n, _)) if !is(n, k) => Err(Why::Content("not the expected key".into())),
            Some(_) if e.len() > 1 => Err(Why::Extra),
            Some((_, v)) => Ok(v),
        }
    };
    // names, and keys of no particular type, are read as text
    if matches!(s, Shape::Struct(_) | Shape::Enum(..) | Shape::Any | Shape::Obj(..) | Shape::Map(Shape::Any | Shape::Ignored, _))
        && e.iter().any(|(k, _)| !matches!(k, Doc::Str(_)))
    {
        return Err(Why::Content("a name that is not text".into()));
    }
    match s {
        Shape::Struct(_) | Shape::Map(..) | Shape::Any | Shape::Obj(..) => content(s, &map(), cx),
        Shape::Ignored => Ok(Val::Unit),
        Shape::Unit | Shape::UnitStruct(_) => {
            if e.is_empty() {
                Ok(if let Shape::UnitStruct(n) = s { Val::UnitStruct(n) } else { Val::Unit })
            } else {
                Err(Why::Extra)
            }
        }
        Shape::Newtype(n, s) => Ok(Val::Newtype(n, Box::new(internal_de(s, e, cx)?))),
        Shape::Opt(s) => {
            if e.is_empty() {
                Ok(Val::None)
            } else {
                Ok(Val::Some(Box::new(content(s, only("value")?, cx)?)))
            }
        }
        Shape::Enum(n, names, pays) => {
            let Some((k, v)) = e.first() else { return Err(Why::NoContent) };
            let Some(i) = names.iter().position(|n| is(k, n)) else { return Err(Why::Content("unknown variant".into())) };
            if e.len() > 1 {
                return Err(Why::Extra);
            }
            let pay = match &pays[i] {
                PayS::Unit => {
                    content(&Shape::Unit, v, cx)?;
                    Pay::Unit
                }
                PayS::New(s) => Pay::New(Box::new(content(s, v, cx)?)),
                // decoded as the variant is from the map of one entry, by the type itself
                PayS::Tup(_) | PayS::Struct(_) => {
                    let one = Doc::Map(vec![(k.clone(), v.clone())]);
                    return content(s, &one, cx);
                }
            };
            Ok(Val::Var(n, i as u32, names[i], pay))
        }
        Shape::Fail(m) => Err(Why::Content(m.to_string())),
        _ => content(s, only("value")?, cx),
    }
}
