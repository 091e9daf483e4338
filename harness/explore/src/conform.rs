//! The descriptions of types against types derived by serde: `Val` and `Shape` must do, call by call, what
//! `#[derive(Serialize, Deserialize)]` and serde's own impls do. All else rests on it.
use crate::checks::{contents, mutants};
use crate::doc::{from_toks, Cx, De, Doc, Text, STYLES, TEXTS};
use crate::gen::{leak, leak_names, st};
use crate::shape::{PayS, Seed, Shape, S};
use crate::strict;
use crate::tok::{record, Bad, Tok};
use crate::val::{Pay, Val};
use serde::de::{DeserializeSeed, IgnoredAny};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Tally {
    pub types: u64,
    pub traces: u64,
    pub bad: Vec<String>,
}

#[derive(Serialize, Deserialize)]
struct Us;
#[derive(Serialize, Deserialize)]
struct Nt<T>(T);
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
struct Id(String);
#[derive(Serialize, Deserialize)]
struct Ts<T>(u8, T);
#[derive(Serialize, Deserialize)]
struct T0s();
#[derive(Serialize, Deserialize)]
struct S0s {}
#[derive(Serialize, Deserialize)]
struct St<T> {
    a: T,
    b: u8,
}
#[derive(Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
struct Sv<T> {
    b: u8,
    value: T,
}
fn ninety() -> u8 {
    99
}
#[derive(Serialize, Deserialize)]
struct Sd {
    a: u8,
    o: Option<u8>,
    #[serde(default = "ninety")]
    d: u8,
}
#[derive(Serialize, Deserialize)]
struct Sk {
    a: u8,
    #[serde(skip_serializing_if = "Option::is_none", skip_deserializing)]
    gone: Option<u8>,
}
#[derive(Serialize, Deserialize)]
enum En<T> {
    V0,
    V1(T),
    V2(T, u8),
    V3 { a: T, b: u8 },
    T0(),
    S0 {},
}
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
enum Ue {
    A,
    B,
}
#[derive(Serialize, Deserialize)]
struct Borrows<'a> {
    #[serde(borrow)]
    a: &'a str,
    b: u8,
}

fn u8s() -> S {
    &Shape::U8
}
fn b(v: Val) -> Box<Val> {
    Box::new(v)
}
fn txt(s: &str) -> Val {
    Val::Str(s.into())
}

/// `same`: the trace of calls must be the same; otherwise only what comes of them.
struct Case<'a> {
    name: &'static str,
    shape: S,
    contents: &'a [Vec<Doc>],
    t: &'a mut Tally,
}
impl<'a> Case<'a> {
    fn bad(&mut self, m: String) {
        if self.t.bad.len() < 20 {
            self.t.bad.push(format!("{}: {m}", self.name));
        }
    }
    /// What it writes.
    fn writes<T: Serialize>(&mut self, x: &T, v: &Val) {
        for human in [true, false] {
            let (a, b) = (record(x, human), record(v, human));
            self.t.traces += 1;
            if a != b {
                self.bad(format!("writes {a:?}, the model {b:?}"));
            }
        }
    }
    /// What it reads, and how.
    fn reads<T: Serialize + for<'de> Deserialize<'de>>(&mut self, vals: &[Val]) {
        self.reads_with(vals, &|d, cx| T::deserialize(De::new(d, cx)).map(|x| record(&x, true).unwrap()), &|t| {
            T::deserialize(strict::De(t)).map(|x| record(&x, true).unwrap())
        });
    }
    fn reads_with(&mut self, vals: &[Val], real: &dyn Fn(&Doc, &Cx) -> Result<Vec<Tok>, Bad>, compact: &dyn Fn(&strict::Tape) -> Result<Vec<Tok>, Bad>) {
        self.t.types += 1;
        let shape = self.shape;
        for (si, style) in STYLES.iter().enumerate() {
            let mut docs: Vec<Doc> = self.contents[si].clone();
            for v in vals {
                if let Some(d) = from_toks(&record(v, true).unwrap(), *style) {
                    docs.extend(mutants(&d));
                    docs.push(d);
                }
            }
            for d in &docs {
                for text in TEXTS {
                    let (ca, cb) = (Cx::new(*style, text, true), Cx::new(*style, text, true));
                    let a = real(d, &ca);
                    let b = Seed(shape).deserialize(De::new(d, &cb)).map(|v| record(&v, true).unwrap());
                    self.t.traces += 1;
                    let same = match (&a, &b) {
                        // a BTreeMap sorts what it was given, and keeps one entry of each key
                        (Ok(a), Ok(b)) => a == b || self.name.contains("BTreeMap"),
                        (Err(_), Err(_)) => true,
                        _ => false,
                    };
                    if !same || ca.trace.get() != cb.trace.get() {
                        self.bad(format!("{style:?} {text:?} {d:?}: {a:?} in {} calls, the model {b:?} in {}", ca.calls.get(), cb.calls.get()));
                    }
                }
            }
        }
        for v in vals {
            let toks = record(v, false).unwrap();
            for names in [false, true] {
                let (ca, cb) = (Cx::compact(Text::Borrowed, false, names), Cx::compact(Text::Borrowed, false, names));
                let (ta, tb) = (strict::Tape::new(&toks, &ca), strict::Tape::new(&toks, &cb));
                let a = compact(&ta);
                let b = Seed(shape).deserialize(strict::De(&tb)).map(|v| record(&v, true).unwrap());
                self.t.traces += 1;
                if a.is_ok() != b.is_ok() || a.is_ok() && a != b || ca.trace.get() != cb.trace.get() {
                    self.bad(format!("compact names={names} {toks:?}: {a:?}, the model {b:?}"));
                }
            }
        }
    }
}

pub fn run() -> Tally {
    let contents = contents();
    let mut t = Tally::default();
    macro_rules! case {
        ($t:ty, $s:expr, [$($x:expr => $v:expr),* $(,)?]) => {{
            let mut c = Case { name: stringify!($t), shape: leak($s), contents: &contents, t: &mut t };
            let vals = vec![$($v),*];
            let mut i = 0;
            $( let x: $t = $x; c.writes(&x, &vals[i]); i += 1; )*
            let _ = i;
            c.reads::<$t>(&vals);
        }};
    }
    /// Every constructor around a type.
    macro_rules! around {
        ($t:ty, $s:expr, $x:expr, $v:expr) => {{
            let s: S = leak($s);
            case!($t, $s, [$x => $v]);
            case!(Option<$t>, Shape::Opt(s), [Some($x) => Val::Some(b($v)), None => Val::None]);
            case!(Box<$t>, $s, [Box::new($x) => $v]);
            case!(Nt<$t>, Shape::Newtype("Nt", s), [Nt($x) => Val::Newtype("Nt", b($v))]);
            case!(Vec<$t>, Shape::Seq(s), [vec![$x, $x] => Val::Seq(vec![$v, $v], true), vec![] => Val::Seq(vec![], true)]);
            case!([$t; 1], Shape::Tuple(vec![s]), [[$x] => Val::Tuple(vec![$v])]);
            case!(($t, u8), Shape::Tuple(vec![s, u8s()]), [($x, 7) => Val::Tuple(vec![$v, Val::U8(7)])]);
            case!(Ts<$t>, Shape::TupleStruct("Ts", vec![u8s(), s]), [Ts(7, $x) => Val::TupleStruct("Ts", vec![Val::U8(7), $v])]);
            case!(BTreeMap<String, $t>, Shape::Map(&Shape::Str, s), [BTreeMap::from([("k".to_string(), $x)]) => Val::Map(vec![(txt("k"), $v)], true), BTreeMap::new() => Val::Map(vec![], true)]);
            case!(St<$t>, Shape::Struct(st("St", &[("a", s), ("b", u8s())], false)), [St { a: $x, b: 7 } => Val::Struct("St", vec![("a", $v), ("b", Val::U8(7))])]);
            case!(Sv<$t>, Shape::Struct(st("Sv", &[("b", u8s()), ("value", s)], true)), [Sv { b: 7, value: $x } => Val::Struct("Sv", vec![("b", Val::U8(7)), ("value", $v)])]);
            case!(En<$t>, Shape::Enum("En", leak_names(&["V0", "V1", "V2", "V3", "T0", "S0"]), vec![
                PayS::Unit, PayS::New(s), PayS::Tup(vec![s, u8s()]), PayS::Struct(st("En", &[("a", s), ("b", u8s())], false)), PayS::Tup(vec![]), PayS::Struct(st("En", &[], false))]),
                [En::V0 => Val::Var("En", 0, "V0", Pay::Unit),
                 En::V1($x) => Val::Var("En", 1, "V1", Pay::New(b($v))),
                 En::V2($x, 7) => Val::Var("En", 2, "V2", Pay::Tup(vec![$v, Val::U8(7)])),
                 En::V3 { a: $x, b: 7 } => Val::Var("En", 3, "V3", Pay::Struct(vec![("a", $v), ("b", Val::U8(7))])),
                 En::T0() => Val::Var("En", 4, "T0", Pay::Tup(vec![])),
                 En::S0 {} => Val::Var("En", 5, "S0", Pay::Struct(vec![]))]);
        }};
    }
    around!(u8, Shape::U8, 3, Val::U8(3));
    around!(String, Shape::Str, "x".to_string(), txt("x"));
    around!(bool, Shape::Bool, true, Val::Bool(true));
    around!(f64, Shape::F64, 0.5, Val::F64(0.5f64.to_bits()));
    around!((), Shape::Unit, (), Val::Unit);
    around!(Us, Shape::UnitStruct("Us"), Us, Val::UnitStruct("Us"));
    around!(Option<u8>, Shape::Opt(u8s()), Some(2), Val::Some(b(Val::U8(2))));
    around!(St<u8>, Shape::Struct(st("St", &[("a", u8s()), ("b", u8s())], false)), St { a: 1, b: 2 }, Val::Struct("St", vec![("a", Val::U8(1)), ("b", Val::U8(2))]));
    around!(Ue, Shape::Enum("Ue", leak_names(&["A", "B"]), vec![PayS::Unit, PayS::Unit]), Ue::B, Val::Var("Ue", 1, "B", Pay::Unit));
    around!(Vec<i64>, Shape::Seq(&Shape::I64), vec![-1, 5], Val::Seq(vec![Val::I64(-1), Val::I64(5)], true));
    around!(BTreeMap<String, u8>, Shape::Map(&Shape::Str, u8s()), BTreeMap::from([("q".to_string(), 1)]), Val::Map(vec![(txt("q"), Val::U8(1))], true));
    macro_rules! prims {
        ($($t:ty, $v:ident, [$($x:expr),*];)*) => {$( case!($t, Shape::$v, [$($x => Val::$v($x)),*]); )*};
    }
    prims! {
        i8, I8, [-128, 0, 127]; i16, I16, [-129, 1]; i32, I32, [i32::MIN, 3]; i64, I64, [i64::MIN, i64::MAX]; i128, I128, [i128::MIN, 4];
        u16, U16, [256, 1]; u32, U32, [70000, 1]; u64, U64, [u64::MAX, 1]; u128, U128, [u128::MAX, 1]; char, Char, ['a', '\u{1f600}'];
    }
    case!(f32, Shape::F32, [1.5 => Val::F32(1.5f32.to_bits()), f32::MAX => Val::F32(f32::MAX.to_bits())]);
    case!(T0s, Shape::TupleStruct("T0s", vec![]), [T0s() => Val::TupleStruct("T0s", vec![])]);
    case!(S0s, Shape::Struct(st("S0s", &[], false)), [S0s {} => Val::Struct("S0s", vec![])]);
    let mut sd = st("Sd", &[("a", u8s()), ("o", leak(Shape::Opt(u8s()))), ("d", u8s())], false);
    sd.default[2] = Some(Val::U8(99));
    case!(Sd, Shape::Struct(sd), [Sd { a: 1, o: None, d: 2 } => Val::Struct("Sd", vec![("a", Val::U8(1)), ("o", Val::None), ("d", Val::U8(2))])]);
    {
        let mut c = Case { name: "Sk", shape: u8s(), contents: &contents, t: &mut t };
        c.writes(&Sk { a: 4, gone: None }, &Val::StructSkip("Sk", vec![("a", Val::U8(4))], "gone"));
        c.writes(&format_args!("shown {}", 1), &Val::Display("shown 1".into()));
    }
    // keys
    macro_rules! keys {
        ($($t:ty, $s:expr, $x:expr, $v:expr;)*) => {$( case!(BTreeMap<$t, u8>, Shape::Map(leak($s), u8s()), [BTreeMap::from([($x, 1)]) => Val::Map(vec![($v, Val::U8(1))], true)]); )*};
    }
    keys! {
        u8, Shape::U8, 1, Val::U8(1); i64, Shape::I64, -1, Val::I64(-1); bool, Shape::Bool, true, Val::Bool(true); char, Shape::Char, 'c', Val::Char('c');
        Id, Shape::Newtype("Id", &Shape::Str), Id("k".into()), Val::Newtype("Id", b(txt("k"))); u128, Shape::U128, u128::MAX, Val::U128(u128::MAX);
        Ue, Shape::Enum("Ue", leak_names(&["A", "B"]), vec![PayS::Unit, PayS::Unit]), Ue::A, Val::Var("Ue", 0, "A", Pay::Unit);
    }
    // borrowing, and what is ignored
    let mut c = Case { name: "&str", shape: &Shape::BorrowStr, contents: &contents, t: &mut t };
    c.reads_with(&[txt("x")], &|d, cx| <&str>::deserialize(De::new(d, cx)).map(|x| record(&x, true).unwrap()), &|t| <&str>::deserialize(strict::De(t)).map(|x| record(&x, true).unwrap()));
    let s = leak(Shape::Struct(st("Borrows", &[("a", &Shape::BorrowStr), ("b", u8s())], false)));
    let mut c = Case { name: "Borrows", shape: s, contents: &contents, t: &mut t };
    let v = Val::Struct("Borrows", vec![("a", txt("x")), ("b", Val::U8(1))]);
    c.writes(&Borrows { a: "x", b: 1 }, &v);
    c.reads_with(&[v], &|d, cx| Borrows::deserialize(De::new(d, cx)).map(|x| record(&x, true).unwrap()), &|t| Borrows::deserialize(strict::De(t)).map(|x| record(&x, true).unwrap()));
    let mut c = Case { name: "IgnoredAny", shape: &Shape::Ignored, contents: &contents, t: &mut t };
    c.reads_with(
        &[Val::Unit],
        &|d, cx| IgnoredAny::deserialize(De::new(d, cx)).map(|_| vec![Tok::Unit]),
        &|t| IgnoredAny::deserialize(strict::De(t)).map(|_| vec![Tok::Unit]),
    );
    t
}
