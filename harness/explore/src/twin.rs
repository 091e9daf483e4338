//! Each trait next to the enum that serde derives over the same types, with the same names and the same way of
//! tagging: in every place that serde's derive has for a value, what the enum writes the trait object writes,
//! and what the enum reads the trait object reads as the same.
use crate::cfg::{self, Alph, Alpha, Alphaa, Alphq, Beta, Cfg, Empty, Gamma, Lower, Spaced, PAD};
use crate::checks::{is_int, slots, tag_field, Tier};
use crate::doc::{from_toks, Cx, De, Doc, STYLES, TEXTS};
use crate::gen::{self, TV};
use crate::real::{self, Real};
use crate::report::{guard, par, Acc};
use crate::shape::{Shape, S};
use crate::tok::record;
use crate::val::Val;
use serde::de::{Deserialize, DeserializeOwned, Deserializer};
use serde::ser::{Serialize, Serializer};
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local! {
    static NOW: Cell<Cfg> = const { Cell::new(Cfg::Ext) };
}

macro_rules! twins {
    ($($c:ident $m:ident ($($attr:tt)*);)*) => {
        const TWINS: &[Cfg] = &[$(Cfg::$c),*];
        $(mod $m {
            use super::*;
            #[derive(serde::Serialize, serde::Deserialize)]
            #[serde($($attr)*)]
            pub enum Tr {
                Alpha(Alpha),
                Beta(Beta),
                Alph(Alph),
                Alphaa(Alphaa),
                #[serde(rename = "")]
                Empty(Empty),
                #[serde(rename = "alpha")]
                Lower(Lower),
                #[serde(rename = "Alpha ")]
                Spaced(Spaced),
                Gamma(Gamma),
                Alphq(Alphq),
            }
            impl Tr {
                pub fn new(ty: usize, v: Val) -> Tr {
                    match ty {
                        0 => Tr::Alpha(Alpha(v)), 1 => Tr::Beta(Beta(v)), 2 => Tr::Alph(Alph(v)),
                        3 => Tr::Alphaa(Alphaa(v, PAD)), 4 => Tr::Empty(Empty(v)), 5 => Tr::Lower(Lower::new(v)),
                        6 => Tr::Spaced(Spaced(v)), 7 => Tr::Gamma(Gamma(v)), _ => Tr::Alphq(Alphq(v)),
                    }
                }
                pub fn parts(self) -> (usize, Val) {
                    match self {
                        Tr::Alpha(x) => (0, x.0), Tr::Beta(x) => (1, x.0), Tr::Alph(x) => (2, x.0),
                        Tr::Alphaa(x) => (3, x.0), Tr::Empty(x) => (4, x.0), Tr::Lower(x) => (5, x.get()),
                        Tr::Spaced(x) => (6, x.0), Tr::Gamma(x) => (7, x.0), Tr::Alphq(x) => (8, x.0),
                    }
                }
            }
        })*
        impl Serialize for Twin {
            fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
                match NOW.get() { $(Cfg::$c => $m::Tr::new(self.0, self.1.clone()).serialize(s),)* _ => unreachable!() }
            }
        }
        impl<'de> Deserialize<'de> for Twin {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let (t, v) = match NOW.get() { $(Cfg::$c => $m::Tr::deserialize(d)?.parts(),)* _ => unreachable!() };
                Ok(Twin(t, v))
            }
        }
    };
}
twins! {
    Ext ext (rename = "Tr");
    Int int (tag = "type");
    IntLate int_late (tag = "~");
    IntA int_a (tag = "a");
    Adj adj (tag = "t", content = "c");
    AdjRev adj_rev (tag = "k", content = "v");
    AdjDeny adj_deny (tag = "t", content = "c", deny_unknown_fields);
    AdjA adj_a (tag = "a", content = "");
}

/// A trait object of the current trait.
#[derive(Clone, Debug, PartialEq)]
struct Obj(usize, Val);
/// The enum in its place.
#[derive(Clone, Debug, PartialEq)]
struct Twin(usize, Val);
impl Serialize for Obj {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        cfg::ser(NOW.get(), self.0, &self.1, s)
    }
}
impl<'de> Deserialize<'de> for Obj {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        cfg::de(NOW.get(), d).map(|(t, v)| Obj(t, v))
    }
}
impl From<(usize, Val)> for Obj {
    fn from(x: (usize, Val)) -> Obj {
        Obj(x.0, x.1)
    }
}
impl From<(usize, Val)> for Twin {
    fn from(x: (usize, Val)) -> Twin {
        Twin(x.0, x.1)
    }
}

macro_rules! places {
    ($($(#[$a:meta])* struct $s:ident { $($(#[$fa:meta])* $f:ident : $ft:ty,)* })* ; $($(#[$ea:meta])* enum $e:ident { $($ev:tt)* })*) => {
        $(#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)] $(#[$a])* struct $s<X> { $($(#[$fa])* $f: $ft,)* })*
        $(#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)] $(#[$ea])* enum $e<X> { $($ev)* })*
    };
}
places! {
    struct Field { id: u8, ev: X, z: u8, }
    #[serde(deny_unknown_fields)]
    struct Strict { ev: X, id: u8, }
    struct Flat { id: u8, #[serde(flatten)] ev: X, z: u8, }
    struct FlatFirst { #[serde(flatten)] ev: X, id: u8, }
    struct FlatOpt { id: u8, #[serde(flatten)] ev: Option<X>, }
    struct FlatDeep { id: u8, #[serde(flatten)] more: FlatFirst<X>, }
    struct FlatField { id: u8, #[serde(flatten)] more: Field2<X>, }
    struct Field2 { ev: X, w: Option<X>, }
    struct Flats { id: u8, #[serde(flatten)] ev: X, list: Vec<FlatFirst<X>>, }
    struct FlatRest { id: u8, #[serde(flatten)] ev: X, #[serde(flatten)] rest: BTreeMap<String, serde_json::Value>, }
    struct Missing { #[serde(default = "Option::default")] ev: Option<X>, id: u8, }
    #[serde(transparent)]
    struct Clear { ev: X, }
    struct Newtype { ev: Nt<X>, }
    ;
    #[serde(untagged)]
    enum Untagged { Num(u64), Ev(X), Text(String), }
    #[serde(untagged)]
    enum UntaggedIn { Many { id: u8, ev: X }, Pair(X, u8), One(X) }
    #[serde(tag = "kind")]
    enum Internal { Direct(X), Named { ev: X, n: u8 }, Other }
    #[serde(tag = "kind", content = "data")]
    enum Adjacent { Direct(X), Pair(u8, X), Named { ev: X, n: u8 }, Other }
    enum External { Direct(X), Pair(u8, X), Named { ev: X, n: u8 }, Other }
}
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
struct Nt<X>(X);

type Got = Result<String, String>;
/// A place, with the enum or the trait object in it.
#[allow(clippy::type_complexity)]
struct Place {
    name: &'static str,
    toks: [fn(usize, &Val, usize, &Val, bool) -> Result<Vec<crate::tok::Tok>, String>; 2],
    enc: [fn(usize, &Val, usize, &Val, Real) -> Result<real::Enc, String>; 2],
    de: [fn(&Doc, &Cx) -> Got; 2],
    dec: [fn(Real, &real::Enc) -> Got; 2],
}
fn read<T: DeserializeOwned + std::fmt::Debug>(d: &Doc, cx: &Cx) -> Got {
    T::deserialize(De::new(d, cx)).map(show).map_err(|e| e.0)
}
fn dec<T: DeserializeOwned + std::fmt::Debug>(r: Real, e: &real::Enc) -> Got {
    real::dec::<T>(r, e).map(show)
}
/// What came out, whichever of the two it is of.
fn show<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}").replace("Twin(", "Obj(")
}

macro_rules! place {
    ($out:ident; $($name:literal $ty:ident<$x:ident> |$a:ident, $b:ident| $mk:expr;)*) => {$(
        {
            type P<$x> = $ty![$x];
            fn mk<$x: From<(usize, Val)> + Clone>(t: usize, v: &Val, u: usize, w: &Val) -> P<$x> {
                let ($a, $b) = ($x::from((t, v.clone())), $x::from((u, w.clone())));
                let _ = (&$a, &$b);
                $mk
            }
            fn toks<$x: From<(usize, Val)> + Clone + Serialize>(t: usize, v: &Val, u: usize, w: &Val, human: bool) -> Result<Vec<crate::tok::Tok>, String> {
                record(&mk::<$x>(t, v, u, w), human).map_err(|e| e.0)
            }
            fn enc<$x: From<(usize, Val)> + Clone + Serialize>(t: usize, v: &Val, u: usize, w: &Val, r: Real) -> Result<real::Enc, String> {
                real::enc(r, &mk::<$x>(t, v, u, w))
            }
            $out.push(Place {
                name: $name,
                toks: [toks::<Twin>, toks::<Obj>],
                enc: [enc::<Twin>, enc::<Obj>],
                de: [read::<P<Twin>>, read::<P<Obj>>],
                dec: [dec::<P<Twin>>, dec::<P<Obj>>],
            });
        }
    )*};
}
macro_rules! plain { ($x:ident) => { $x }; }
macro_rules! vec_ { ($x:ident) => { Vec<$x> }; }
macro_rules! array { ($x:ident) => { [$x; 2] }; }
macro_rules! tuple { ($x:ident) => { (u8, $x, $x) }; }
macro_rules! option { ($x:ident) => { Option<$x> }; }
macro_rules! boxed { ($x:ident) => { Box<$x> }; }
macro_rules! map { ($x:ident) => { BTreeMap<String, $x> }; }
macro_rules! nums { ($x:ident) => { BTreeMap<u8, Vec<$x>> }; }
macro_rules! result { ($x:ident) => { Result<$x, u8> }; }
macro_rules! named { ($($m:ident $t:ident;)*) => { $(macro_rules! $m { ($x:ident) => { $t<$x> }; })* }; }
named! { field Field; strict Strict; flat Flat; flat_first FlatFirst; flat_opt FlatOpt; flat_deep FlatDeep; flat_field FlatField; flats Flats; flat_rest FlatRest; missing Missing; clear Clear; newtype Newtype;
untagged Untagged; untagged_in UntaggedIn; internal Internal; adjacent Adjacent; external External; nt Nt; }

fn places() -> Vec<Place> {
    let mut out = Vec::new();
    place! { out;
        "alone" plain<X> |a, b| a;
        "Vec" vec_<X> |a, b| vec![a, b];
        "array" array<X> |a, b| [a, b];
        "tuple" tuple<X> |a, b| (1, a, b);
        "Some" option<X> |a, b| Some(a);
        "Box" boxed<X> |a, b| Box::new(a);
        "map" map<X> |a, b| BTreeMap::from([("k".to_string(), a), ("type".to_string(), b)]);
        "map of lists" nums<X> |a, b| BTreeMap::from([(3, vec![a, b]), (4, vec![])]);
        "Ok" result<X> |a, b| Ok(a);
        "newtype" nt<X> |a, b| Nt(a);
        "field" field<X> |a, b| Field { id: 1, ev: a, z: 2 };
        "field, strict" strict<X> |a, b| Strict { ev: a, id: 1 };
        "flattened" flat<X> |a, b| Flat { id: 1, ev: a, z: 2 };
        "flattened first" flat_first<X> |a, b| FlatFirst { ev: a, id: 1 };
        "flattened option" flat_opt<X> |a, b| FlatOpt { id: 1, ev: Some(a) };
        "flattened none" flat_opt<X> |a, b| FlatOpt { id: 1, ev: None };
        "flattened twice" flat_deep<X> |a, b| FlatDeep { id: 1, more: FlatFirst { ev: a, id: 2 } };
        "field of what is flattened" flat_field<X> |a, b| FlatField { id: 1, more: Field2 { ev: a, w: Some(b) } };
        "flattened, in a list" flats<X> |a, b| Flats { id: 1, ev: a, list: vec![FlatFirst { ev: b.clone(), id: 3 }, FlatFirst { ev: b, id: 4 }] };
        "flattened with the rest" flat_rest<X> |a, b| FlatRest { id: 1, ev: a, rest: BTreeMap::new() };
        "there" missing<X> |a, b| Missing { ev: Some(a), id: 1 };
        "not there" missing<X> |a, b| Missing { ev: None, id: 1 };
        "transparent" clear<X> |a, b| Clear { ev: a };
        "field newtype" newtype<X> |a, b| Newtype { ev: Nt(a) };
        "untagged" untagged<X> |a, b| Untagged::Ev(a);
        "untagged field" untagged_in<X> |a, b| UntaggedIn::Many { id: 1, ev: a };
        "untagged pair" untagged_in<X> |a, b| UntaggedIn::Pair(a, 1);
        "untagged one" untagged_in<X> |a, b| UntaggedIn::One(a);
        "internal" internal<X> |a, b| Internal::Direct(a);
        "internal field" internal<X> |a, b| Internal::Named { ev: a, n: 1 };
        "adjacent" adjacent<X> |a, b| Adjacent::Direct(a);
        "adjacent pair" adjacent<X> |a, b| Adjacent::Pair(1, a);
        "adjacent field" adjacent<X> |a, b| Adjacent::Named { ev: a, n: 1 };
        "external" external<X> |a, b| External::Direct(a);
        "external pair" external<X> |a, b| External::Pair(1, a);
        "external field" external<X> |a, b| External::Named { ev: a, n: 1 };
    }
    out
}

/// The document with the entries of its maps in other orders.
fn moved(d: &Doc, deep: bool) -> Vec<Doc> {
    fn at(d: &Doc, f: &mut dyn FnMut(&Doc) -> Vec<Doc>) -> Vec<Doc> {
        let mut out = f(d);
        match d {
            Doc::Map(m) => {
                for (i, (_, v)) in m.iter().enumerate() {
                    for x in at(v, f) {
                        let mut m = m.clone();
                        m[i].1 = x;
                        out.push(Doc::Map(m));
                    }
                }
            }
            Doc::Seq(q) => {
                for (i, v) in q.iter().enumerate() {
                    for x in at(v, f) {
                        let mut q = q.clone();
                        q[i] = x;
                        out.push(Doc::Seq(q));
                    }
                }
            }
            Doc::Some(v) => out.extend(at(v, f).into_iter().map(|x| Doc::Some(Box::new(x)))),
            Doc::Newtype(v) => out.extend(at(v, f).into_iter().map(|x| Doc::Newtype(Box::new(x)))),
            _ => {}
        }
        out
    }
    at(d, &mut |d| match d {
        Doc::Map(m) if m.len() > 1 => {
            let n = m.len();
            if n <= if deep { 4 } else { 3 } {
                let mut all = vec![vec![]];
                for _ in 0..n {
                    all = all.into_iter().flat_map(|p: Vec<usize>| (0..n).filter(|i| !p.contains(i)).map(|i| [p.clone(), vec![i]].concat()).collect::<Vec<_>>()).collect();
                }
                return all.into_iter().skip(1).map(|p| Doc::Map(p.into_iter().map(|i| m[i].clone()).collect())).collect();
            }
            let mut out = Vec::new();
            let mut r = m.clone();
            r.reverse();
            out.push(Doc::Map(r));
            for i in 0..n.min(6) {
                for to in [0, n - 1] {
                    let mut m = m.clone();
                    let e = m.remove(i);
                    m.insert(to, e);
                    out.push(Doc::Map(m));
                }
            }
            out
        }
        _ => vec![],
    })
}

pub fn c25(t: &Tier) -> Acc {
    let mut jobs: Vec<TV> = gen::shapes(if t.thorough { 2 } else { 1 });
    jobs.extend(gen::nested(&[Cfg::Int, Cfg::Ext], &[gen::u8s()], 1));
    let places = places();
    par(&jobs, |tv, acc| {
        let other = Val::U8(7);
        for (i, v) in tv.v.iter().enumerate() {
            for p in &places {
                for c in TWINS {
                    // among entries that may be anyone's, an enum takes the one with the name of a variant; what
                    // a trait object could be is not known where it is asked for
                    if tag_field(*c, v) || *c == Cfg::Ext && p.name == "flattened with the rest" {
                        continue;
                    }
                    NOW.set(*c);
                    let types: &[usize] = if i == 0 && (t.thorough || matches!(tv.s, Shape::U8 | Shape::Struct(_))) { &[0, 2, 3, 4, 5, 6, 8] } else { &[0] };
                    for ty in types {
                        one(t, tv, p, *c, *ty, v, &other, acc);
                    }
                }
            }
        }
    })
}

/// An option that is flattened is none when what is there cannot be read: that is no reading.
fn lost(p: &Place, got: &str) -> bool {
    p.name == "flattened option" && got.contains("ev: None")
}
/// Every key is text.
fn textual(d: &Doc) -> bool {
    match d {
        Doc::Map(m) => m.iter().all(|(k, v)| matches!(k, Doc::Str(_)) && textual(v)),
        Doc::Seq(q) => q.iter().all(textual),
        Doc::Some(d) | Doc::Newtype(d) => textual(d),
        _ => true,
    }
}

#[allow(clippy::too_many_arguments)]
fn one(t: &Tier, tv: &TV, p: &Place, c: Cfg, ty: usize, v: &Val, w: &Val, acc: &mut Acc) {
    let s: [S; cfg::NT] = slots(tv.s);
    let case = || format!("{} {c:?} type={ty} shape={:?} value={v:?}", p.name, tv.s);
    let mut before = None;
    let human_shape = format!("{:?}", tv.s).contains("Human");
    for human in [true, false] {
        // the second value: for a place that has it, the same as the first if a struct or map is needed
        let second = [(1, w), (ty, v)];
        let mut first = None;
        for (u, w) in second {
            let Ok(a) = (p.toks[0])(ty, v, u, w, human) else { continue };
            first = Some((u, w, a));
            break;
        }
        let Some((u, w, a)) = first else {
            acc.skipped += 1;
            continue;
        };
        if before.replace(a.clone()).as_ref() == Some(&a) && !t.thorough {
            continue;
        }
        acc.execs += 1;
        let b = match guard(|| (p.toks[1])(ty, v, u, w, human)) {
            Ok(Ok(b)) => b,
            r => {
                acc.viol("C25/writes", case(), format!("the enum is written as {a:?}, the trait object gives {r:?}"));
                continue;
            }
        };
        for style in STYLES {
            let Some(d) = from_toks(&a, style) else { continue };
            if from_toks(&b, style).as_ref() != Some(&d) {
                acc.viol("C25/writes", case(), format!("{style:?} human={human}: the enum is written as {d:?}, the trait object as {:?}", from_toks(&b, style)));
                continue;
            }
            let mut docs = vec![d.clone()];
            if !is_int(c) || textual(&d) {
                docs.extend(moved(&d, t.thorough));
            }
            for (k, d) in docs.iter().enumerate() {
                for (n, text) in TEXTS.into_iter().enumerate() {
                    // one of them for each other order
                    if k > 0 && k % 3 != n && !t.thorough {
                        continue;
                    }
                    let cx = Cx::new(style, text, human);
                    let _f = cfg::push(s);
                    acc.state(&(p.name, c, ty, style, text, human, v as *const Val as usize, k));
                    let Ok(Ok(want)) = guard(|| (p.de[0])(d, &cx)) else {
                        acc.rejected += 1;
                        continue;
                    };
                    if lost(p, &want) {
                        continue;
                    }
                    acc.execs += 2;
                    acc.ok += 1;
                    let cx = Cx::new(style, text, human);
                    let got = guard(|| (p.de[1])(d, &cx));
                    acc.transitions += cx.calls.get() as u64;
                    if got != Ok(Ok(want.clone())) {
                        acc.viol("C25/reads", case(), format!("{style:?} {text:?} human={human} {d:?}: the enum reads {want}, the trait object {got:?}"));
                    }
                }
            }
            acc.sample(|| format!("{} {style:?} human={human} {d:?}", case()));
        }
        if human {
            for r in real::SELF_DESCRIBING {
                // serde's own enum does not say that the format is not human-readable
                if r == Real::Cbor && human_shape {
                    continue;
                }
                let Ok(Ok(a)) = guard(|| (p.enc[0])(ty, v, u, w, r)) else { continue };
                let _f = cfg::push(s);
                acc.count(&format!("{r:?}"), 1);
                let b = guard(|| (p.enc[1])(ty, v, u, w, r));
                if b.as_ref() != Ok(&Ok(a.clone())) {
                    acc.viol("C25/formats", case(), format!("{r:?}: the enum is written as {a:?}, the trait object as {b:?}"));
                }
                let Ok(Ok(b)) = b else { continue };
                for e in [&a, &b] {
                    let Ok(Ok(want)) = guard(|| (p.dec[0])(r, e)) else { continue };
                    if lost(p, &want) {
                        continue;
                    }
                    let got = guard(|| (p.dec[1])(r, e));
                    acc.execs += 2;
                    if got != Ok(Ok(want.clone())) {
                        acc.viol("C25/formats", case(), format!("{r:?} {e:?}: the enum reads {want}, the trait object {got:?}"));
                    }
                }
            }
        }
    }
}
