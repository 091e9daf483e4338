//! The registered types, and one trait for each way of tagging.
use crate::meter;
use crate::shape::{Seed, S};
use crate::val::Val;
use serde::de::{Deserialize, DeserializeSeed, Deserializer};
use serde::ser::{Serialize, Serializer};
use std::cell::RefCell;

pub const NT: usize = 2;

thread_local! {
    static FRAMES: RefCell<Vec<[S; NT]>> = const { RefCell::new(Vec::new()) };
}

/// What the harness itself keeps is made before anything is measured, and what was put away is dropped.
pub fn settle() {
    FRAMES.with(|f| f.borrow_mut().reserve(256));
    LOWER.with(|l| *l.borrow_mut() = Val::Unit);
}

pub struct Frame(usize);
impl Drop for Frame {
    fn drop(&mut self) {
        FRAMES.with(|f| f.borrow_mut().truncate(self.0));
    }
}
pub fn push(slots: [S; NT]) -> Frame {
    FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        f.push(slots);
        Frame(f.len() - 1)
    })
}
fn slot(i: usize) -> S {
    FRAMES.with(|f| f.borrow().last().expect("no shape is set")[i])
}

macro_rules! types {
    ($($t:ident $i:expr, $s:expr;)*) => {$(
        pub struct $t(pub Val);
        impl Serialize for $t {
            fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
                meter::ser($i);
                self.0.serialize(s)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                meter::de($i);
                Seed(slot($s)).deserialize(d).map($t)
            }
        }
    )*};
}
// Alpha and Beta have shapes of their own; the others, with Alpha's shape, have names close to it.
types! { Alpha 0, 0; Beta 1, 1; Alph 2, 0; Empty 4, 0; Spaced 6, 0; Gamma 7, 1; Alphq 8, 1; }

// A type may also be large, with an alignment of its own, or nothing at all.
#[repr(align(128))]
pub struct Alphaa(pub Val, pub [u64; 40]);
impl Serialize for Alphaa {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        meter::ser(3);
        assert_eq!(self as *const Self as usize % 128, 0);
        assert_eq!(self.1, PAD);
        self.0.serialize(s)
    }
}
pub(crate) const PAD: [u64; 40] = [0x5a5a_1234_0000_ffff; 40];
impl<'de> Deserialize<'de> for Alphaa {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        meter::de(3);
        Seed(slot(0)).deserialize(d).map(|v| Alphaa(v, PAD))
    }
}
thread_local! {
    static LOWER: RefCell<Val> = const { RefCell::new(Val::Unit) };
}
/// Without size: what it stands for is elsewhere, until it is next made.
pub struct Lower;
impl Lower {
    pub(crate) fn new(v: Val) -> Lower {
        LOWER.with(|l| *l.borrow_mut() = v);
        Lower
    }
    pub(crate) fn get(&self) -> Val {
        LOWER.with(|l| l.borrow().clone())
    }
}
impl Serialize for Lower {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        meter::ser(5);
        self.get().serialize(s)
    }
}
impl<'de> Deserialize<'de> for Lower {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        meter::de(5);
        Seed(slot(0)).deserialize(d).map(Lower::new)
    }
}

/// The tag of each registered type, by its index.
pub const TAGS: [&str; 9] = ["Alpha", "Beta", "Alph", "Alphaa", "", "alpha", "Alpha ", "Gamma", "Alphq"];
pub const SORTED: [&str; 9] = ["", "Alph", "Alpha", "Alpha ", "Alphaa", "Alphq", "Beta", "Gamma", "alpha"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Repr {
    Ext,
    Int { tag: &'static str, default: Option<&'static str> },
    Adj { tag: &'static str, content: &'static str, default: Option<&'static str>, deny: bool },
}

macro_rules! cfgs {
    ($($v:ident $m:ident ($($attr:tt)*) $repr:expr;)*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum Cfg { $($v),* }
        pub const CFGS: &[Cfg] = &[$(Cfg::$v),*];
        impl Cfg {
            pub fn repr(self) -> Repr { match self { $(Cfg::$v => $repr),* } }
        }
        $(pub mod $m {
            use super::*;
            #[typetag::serde($($attr)*)]
            pub trait Tr { fn val(self: Box<Self>) -> Val; fn idx(&self) -> usize; }
            #[typetag::serde]
            impl Tr for Alpha { fn val(self: Box<Self>) -> Val { self.0 } fn idx(&self) -> usize { 0 } }
            #[typetag::serde]
            impl Tr for Beta { fn val(self: Box<Self>) -> Val { self.0 } fn idx(&self) -> usize { 1 } }
            #[typetag::serde]
            impl Tr for Alph { fn val(self: Box<Self>) -> Val { self.0 } fn idx(&self) -> usize { 2 } }
            #[typetag::serde(name = "Alphaa")]
            impl Tr for Alphaa { fn val(self: Box<Self>) -> Val { assert_eq!(self.1, PAD); self.0 } fn idx(&self) -> usize { 3 } }
            #[typetag::serde(name = "")]
            impl Tr for Empty { fn val(self: Box<Self>) -> Val { self.0 } fn idx(&self) -> usize { 4 } }
            #[typetag::serde(name = "alpha")]
            impl Tr for Lower { fn val(self: Box<Self>) -> Val { self.get() } fn idx(&self) -> usize { 5 } }
            #[typetag::serde(name = "Alpha ")]
            impl Tr for Spaced { fn val(self: Box<Self>) -> Val { self.0 } fn idx(&self) -> usize { 6 } }
            #[typetag::serde]
            impl Tr for Gamma { fn val(self: Box<Self>) -> Val { self.0 } fn idx(&self) -> usize { 7 } }
            #[typetag::serde]
            impl Tr for Alphq { fn val(self: Box<Self>) -> Val { self.0 } fn idx(&self) -> usize { 8 } }
            pub fn mk(ty: usize, v: &Val) -> Box<dyn Tr> {
                let v = v.clone();
                match ty {
                    0 => Box::new(Alpha(v)), 1 => Box::new(Beta(v)), 2 => Box::new(Alph(v)),
                    3 => Box::new(Alphaa(v, PAD)), 4 => Box::new(Empty(v)), 5 => Box::new(Lower::new(v)),
                    6 => Box::new(Spaced(v)), 7 => Box::new(Gamma(v)), _ => Box::new(Alphq(v)),
                }
            }
        })*
        /// Serialize `val` as a trait object.
        pub fn ser<Z: Serializer>(c: Cfg, ty: usize, val: &Val, s: Z) -> Result<Z::Ok, Z::Error> {
            match c { $(Cfg::$v => $m::mk(ty, val).serialize(s)),* }
        }
        /// Deserialize a trait object; the shapes come from the current frame.
        pub fn de<'de, D: Deserializer<'de>>(c: Cfg, d: D) -> Result<(usize, Val), D::Error> {
            match c { $(Cfg::$v => <Box<dyn $m::Tr>>::deserialize(d).map(|b| (b.idx(), b.val()))),* }
        }
    };
}

cfgs! {
    Ext ext () Repr::Ext;
    Int int (tag = "type") Repr::Int { tag: "type", default: None };
    IntLate int_late (tag = "~") Repr::Int { tag: "~", default: None };
    IntDef int_def (tag = "type", default_variant = "Alpha") Repr::Int { tag: "type", default: Some("Alpha") };
    Adj adj (tag = "t", content = "c") Repr::Adj { tag: "t", content: "c", default: None, deny: false };
    AdjRev adj_rev (tag = "k", content = "v") Repr::Adj { tag: "k", content: "v", default: None, deny: false };
    AdjDef adj_def (tag = "t", content = "c", default_variant = "Alpha") Repr::Adj { tag: "t", content: "c", default: Some("Alpha"), deny: false };
    AdjDeny adj_deny (tag = "t", content = "c", deny_unknown_fields) Repr::Adj { tag: "t", content: "c", default: None, deny: true };
    AdjDefDeny adj_def_deny (tag = "t", content = "c", default_variant = "Alpha", deny_unknown_fields) Repr::Adj { tag: "t", content: "c", default: Some("Alpha"), deny: true };
    // Key names that also occur in the contents.
    IntA int_a (tag = "a") Repr::Int { tag: "a", default: None };
    IntEmpty int_empty (tag = "", default_variant = "Beta") Repr::Int { tag: "", default: Some("Beta") };
    // A default that names no impl.
    IntNo int_no (tag = "type", default_variant = "Nope") Repr::Int { tag: "type", default: Some("Nope") };
    AdjNo adj_no (tag = "t", content = "c", default_variant = "Nope") Repr::Adj { tag: "t", content: "c", default: Some("Nope"), deny: false };
    AdjA adj_a (tag = "a", content = "") Repr::Adj { tag: "a", content: "", default: None, deny: false };
}

/// The trait object of a value, as a `Serialize`.
pub struct Tagged<'a>(pub Cfg, pub usize, pub &'a Val);
impl<'a> Serialize for Tagged<'a> {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        ser(self.0, self.1, self.2, s)
    }
}

/// A seed for the trait object in the current frame.
pub struct TagSeed(pub Cfg);
impl<'de> DeserializeSeed<'de> for TagSeed {
    type Value = (usize, Val);
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(usize, Val), D::Error> {
        de(self.0, d)
    }
}

thread_local! {
    static CURRENT: std::cell::Cell<Cfg> = const { std::cell::Cell::new(Cfg::Ext) };
}
/// The trait object of the current trait, for formats that only take a type.
pub struct Dyn(pub (usize, Val));
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        de(CURRENT.with(|c| c.get()), d).map(Dyn)
    }
}
pub fn set_current(c: Cfg) {
    CURRENT.with(|x| x.set(c));
}
