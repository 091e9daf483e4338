mod cfg;
mod checks;
mod conform;
mod doc;
mod gen;
mod hist;
mod meter;
mod real;
mod report;
mod res;
mod shape;
mod small;
mod spec;
mod strict;
mod tok;
mod twin;
mod val;

use checks::Tier;
use report::Acc;
use std::time::Instant;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, out) = (a[1].as_str(), a[2].as_str(), &a[3]);
    let t = Tier { thorough: tier == "thorough" };
    let start = Instant::now();
    // the descriptions of types against derived types: without it, the rest means nothing
    let conform = std::thread::spawn(|| report::guard(conform::run)).join().unwrap().unwrap();
    if !conform.bad.is_empty() {
        println!("the model of types does not conform:\n{}", conform.bad.join("\n"));
        std::process::exit(9);
    }
    let mut acc = match prop {
        "C01" => checks::c01_c02(&t, false),
        "C02" => checks::c01_c02(&t, true),
        "C03" => checks::c03(&t),
        "C04" => checks::c04(&t),
        "C05" => checks::c05(&t),
        "C06" => checks::c06(&t),
        "C07" => checks::c07(&t),
        "C08" => checks::c08(&t),
        "C10" => checks::c10(&t),
        "C11" => checks::c11(&t),
        "C12" => checks::c12(&t),
        "C14" => hist::c14(t.thorough),
        "C19" => checks::c19(&t),
        "C21" => checks::c21(&t),
        "C23" => res::c23(&t),
        "C24" => res::c24(&t),
        "C25" => twin::c25(&t),
        _ => panic!("no such check"),
    };
    acc.count("conformance: derived types", conform.types);
    acc.count("conformance: traces compared", conform.traces);
    write(out, &acc, start.elapsed().as_secs_f64());
}

/// The outcome as JSON, for the driver.
pub fn write(path: &str, acc: &Acc, wall: f64) {
    let viols: Vec<serde_json::Value> = acc
        .viols
        .iter()
        .map(|v| serde_json::json!({"key": v.key, "job": v.order.0, "case": v.case, "detail": v.detail}))
        .collect();
    let j = serde_json::json!({
        "states": acc.nstates + acc.states.len() as u64,
        "transitions": acc.transitions,
        "executions": acc.execs,
        "decoded": acc.ok,
        "rejected": acc.rejected,
        "skipped": acc.skipped,
        "violations": acc.nviols,
        "viols": viols,
        "samples": acc.samples.iter().take(4).collect::<Vec<_>>(),
        "extra": acc.extra,
        "wall_s": wall,
    });
    std::fs::write(path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
