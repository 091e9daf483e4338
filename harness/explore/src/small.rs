//! Traits with few implementations, with none, and with many: what the tags are looked up in.
use crate::checks::Tier;
use crate::doc::{s, Cx, De, Doc, STYLES, TEXTS};
use crate::report::{guard, par, Acc};
use serde::{Deserialize, Serialize};

type Read = fn(&Doc, &Cx) -> Result<usize, String>;

macro_rules! sets {
    ($($set:ident { $($t:ident = $n:literal $i:expr;)* })*) => {
        $(pub mod $set {
            use super::*;
            $(#[derive(Serialize, Deserialize)] pub struct $t {})*
            reps! { $set [$($t $n $i;)*] ext () int (tag = "type") int_def (tag = "type", default_variant = "Solo") adj (tag = "t", content = "c") adj_deny (tag = "t", content = "c", default_variant = "b", deny_unknown_fields) }
            pub const NAMES: &[&str] = &[$($n),*];
            pub const READ: [Read; 5] = [ext::read, int::read, int_def::read, adj::read, adj_deny::read];
        })*
        const SETS: &[(&str, &[&str], [Read; 5])] = &[$((stringify!($set), $set::NAMES, $set::READ)),*];
    };
}
macro_rules! reps {
    ($set:ident $types:tt $($m:ident $attr:tt)*) => { $(rep! { $m $attr $types })* };
}
macro_rules! rep {
    ($m:ident ($($attr:tt)*) [$($t:ident $n:literal $i:expr;)*]) => {
        pub mod $m {
            use super::*;
            #[typetag::serde($($attr)*)]
            pub trait Tr { fn idx(&self) -> usize; }
            $(#[typetag::serde(name = $n)]
            impl Tr for $t { fn idx(&self) -> usize { $i } })*
            pub fn read(d: &Doc, cx: &Cx) -> Result<usize, String> {
                <Box<dyn Tr>>::deserialize(De::new(d, cx)).map(|b| b.idx()).map_err(|e| e.0)
            }
        }
    };
}
sets! {
    none {
    }
    one {
        T0 = "Solo" 0;
    }
    two {
        T0 = "zwei" 0;
        T1 = "Eins" 1;
    }
    odd {
        T0 = "b" 0;
        T1 = "B" 1;
        T2 = "" 2;
        T3 = "a b" 3;
        T4 = "a" 4;
        T5 = "aa" 5;
        T6 = "\u{e9}t\u{e9}" 6;
        T7 = "\u{1f600}" 7;
        T8 = "x.y::Z<W>" 8;
        T9 = "a\tb" 9;
        T10 = "Aa" 10;
        T11 = "9" 11;
        T12 = "10" 12;
    }
    many {
        T0 = "z0" 0;
        T1 = "c37" 1;
        T2 = "x74" 2;
        T3 = "n10" 3;
        T4 = "b47" 4;
        T5 = "y84" 5;
        T6 = "m20" 6;
        T7 = "a57" 7;
        T8 = "z94" 8;
        T9 = "c30" 9;
        T10 = "x67" 10;
        T11 = "n3" 11;
        T12 = "b40" 12;
        T13 = "y77" 13;
        T14 = "m13" 14;
        T15 = "a50" 15;
        T16 = "z87" 16;
        T17 = "c23" 17;
        T18 = "x60" 18;
        T19 = "n97" 19;
        T20 = "b33" 20;
        T21 = "y70" 21;
        T22 = "m6" 22;
        T23 = "a43" 23;
        T24 = "z80" 24;
        T25 = "c16" 25;
        T26 = "x53" 26;
        T27 = "n90" 27;
        T28 = "b26" 28;
        T29 = "y63" 29;
        T30 = "m100" 30;
        T31 = "a36" 31;
        T32 = "z73" 32;
        T33 = "c9" 33;
        T34 = "x46" 34;
        T35 = "n83" 35;
        T36 = "b19" 36;
        T37 = "y56" 37;
        T38 = "m93" 38;
        T39 = "a29" 39;
        T40 = "z66" 40;
        T41 = "c2" 41;
        T42 = "x39" 42;
        T43 = "n76" 43;
        T44 = "b12" 44;
        T45 = "y49" 45;
        T46 = "m86" 46;
        T47 = "a22" 47;
        T48 = "z59" 48;
        T49 = "c96" 49;
        T50 = "x32" 50;
        T51 = "n69" 51;
        T52 = "b5" 52;
        T53 = "y42" 53;
        T54 = "m79" 54;
        T55 = "a15" 55;
        T56 = "z52" 56;
        T57 = "c89" 57;
        T58 = "x25" 58;
        T59 = "n62" 59;
        T60 = "b99" 60;
        T61 = "y35" 61;
        T62 = "m72" 62;
        T63 = "a8" 63;
        T64 = "z45" 64;
        T65 = "c82" 65;
        T66 = "x18" 66;
        T67 = "n55" 67;
        T68 = "b92" 68;
        T69 = "y28" 69;
    }
}

const REPS: [&str; 5] = ["external", "internal", "internal with a default", "adjacent", "adjacent, strict, with a default"];

/// The documents with this tag around nothing.
fn docs(rep: usize, tag: &str) -> Vec<Doc> {
    let nothing = Doc::Map(vec![]);
    let x = || (s("x"), Doc::U8(1));
    match rep {
        0 => vec![Doc::Map(vec![(s(tag), nothing)])],
        1 | 2 => {
            let t = || (s("type"), s(tag));
            vec![Doc::Map(vec![t()]), Doc::Map(vec![t(), x()]), Doc::Map(vec![x(), t()])]
        }
        _ => {
            let (t, c) = (|| (s("t"), s(tag)), || (s("c"), Doc::Map(vec![])));
            let mut out = vec![Doc::Map(vec![t(), c()]), Doc::Map(vec![c(), t()]), Doc::Seq(vec![s(tag), nothing])];
            if rep == 3 {
                out.push(Doc::Map(vec![x(), c(), x(), t(), x()]));
            }
            out
        }
    }
}

/// What is close to a name, and is another, or none.
fn near(n: &str) -> Vec<String> {
    let c: Vec<char> = n.chars().collect();
    let all = |c: &[char]| c.iter().collect::<String>();
    let mut out = vec![n.to_lowercase(), n.to_uppercase(), format!(" {n}"), format!("{n} "), format!("{n}{n}"), format!("`{n}`"), format!("{n}\0"), format!("::{n}"), format!("\u{feff}{n}")];
    for i in 0..=c.len() {
        for x in ['a', 'Z', '_', '\u{301}'] {
            let mut d = c.clone();
            d.insert(i, x);
            out.push(all(&d));
            if i < c.len() {
                d.remove(i + 1);
                out.push(all(&d));
            }
        }
        if i < c.len() {
            let mut d = c.clone();
            d.remove(i);
            out.push(all(&d));
            if i + 1 < c.len() {
                let mut d = c.clone();
                d.swap(i, i + 1);
                out.push(all(&d));
            }
        }
    }
    out
}

/// Each tag is looked up among the others of the trait. What the error says is for C08.
pub fn run(prop: &str, t: &Tier) -> Acc {
    let mut jobs = Vec::new();
    for set in SETS {
        for rep in 0..5 {
            jobs.push((set, rep));
        }
    }
    let mut other: Vec<String> = SETS.iter().flat_map(|s| s.1.iter().map(|n| n.to_string())).collect();
    other.extend(["T0", "T1", "small::one::T0", "Tr", "type", "t", "c", "0", "null"].map(String::from));
    let key = format!("{prop}/lookup");
    par(&jobs, |((set, names, read), rep), acc| {
        let mut tags: Vec<String> = names.iter().map(|n| n.to_string()).collect();
        tags.extend(names.iter().flat_map(|n| near(n)));
        tags.extend(other.iter().cloned());
        if t.thorough {
            tags.extend(other.iter().flat_map(|n| near(n)));
        }
        tags.sort();
        tags.dedup();
        let mut sorted = names.to_vec();
        sorted.sort();
        let list = sorted.iter().map(|n| format!("`{n}`"));
        for tag in &tags {
            let want = names.iter().position(|n| n == tag);
            for (style, text) in STYLES.into_iter().flat_map(|s| TEXTS.map(|t| (s, t))) {
                for d in docs(*rep, tag) {
                    let cx = Cx::new(style, text, true);
                    acc.execs += 1;
                    acc.state(&(style, text, format!("{d:?}")));
                    let got = guard(|| read[*rep](&d, &cx));
                    acc.transitions += cx.calls.get() as u64;
                    let bad = match (&want, &got) {
                        (_, Err(m)) => Some(format!("panic: {m}")),
                        (Some(i), Ok(Ok(j))) if i == j => {
                            acc.ok += 1;
                            None
                        }
                        (None, Ok(Err(m))) => {
                            acc.rejected += 1;
                            if prop == "C07" {
                                continue;
                            }
                            let mut left = match m.split_once(&format!("`{tag}`")) {
                                Some((_, left)) => Ok(left),
                                None => Err("the tag".to_string()),
                            };
                            for n in list.clone() {
                                left = left.and_then(|l| l.split_once(&n).map(|l| l.1).ok_or(n));
                            }
                            left.err().map(|e| format!("the error does not mention {e} in its place: {m}"))
                        }
                        (w, g) => Some(format!("{g:?} instead of {w:?}")),
                    };
                    if let Some(bad) = bad {
                        acc.viol(&key, format!("{} trait with {} tags ({set}), {style:?} {text:?} doc={d:?}", REPS[*rep], names.len()), bad);
                    }
                }
            }
        }
        acc.sample(|| format!("{} trait with {} tags: {} tags looked up", REPS[*rep], names.len(), tags.len()));
    })
}
