mod c01;
mod c02;
mod c03;
mod c06;
mod c07;
mod c08;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c17;
mod c20;
mod c09;
mod c21;
mod c22;
mod c24;
mod c26;
mod c23;
mod c27;
mod cond;
mod db;
#[macro_use]
mod engine;
mod gen;
mod hist;
mod items;
mod mig;
mod models;
mod schema;
mod vals;

use engine::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

type Check = fn(&Ctx);
const CHECKS: &[(&str, Check)] = &[("C01", c01::c01), ("C03", c03::c03), ("C04", c03::c04), ("C05", c03::c05), ("C24", c24::c24), ("C02", c02::c02), ("C25", c02::c25), ("C06", c06::c06), ("C07", c07::c07), ("C08", c08::c08), ("C09", c09::c09), ("C11", c11::c11), ("C12", c12::c12), ("C13", c13::c13), ("C14", c14::c14), ("C15", c14::c15), ("C16", c14::c16), ("C17", c17::c17), ("C18", c17::c18), ("C19", c17::c19), ("C20", c20::c20), ("C21", c21::c21), ("C22", c22::c22), ("C26", c26::c26),
    ("C23", c23::c23), ("C27", c27::c27), ("C10", c10::c10)];

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut pos = Vec::new();
    let mut replay = None;
    let mut only_sub = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--replay" => replay = it.next().cloned(),
            "--sub" => only_sub = it.next().cloned(),
            _ => pos.push(a.clone()),
        }
    }
    let prop = pos.first().cloned().unwrap_or_default();
    let tier = pos
        .get(1)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let root = PathBuf::from(std::env::var("BH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let Some((_, check)) = CHECKS.iter().find(|c| c.0 == prop) else {
        eprintln!("unknown property {prop:?}");
        std::process::exit(2);
    };
    let mut known = Vec::new();
    if let Ok(txt) = std::fs::read_to_string(root.join("known_findings.json")) {
        let v: serde_json::Value = serde_json::from_str(&txt).expect("known_findings.json");
        for k in v["findings"].as_array().into_iter().flatten() {
            known.push(serde_json::from_value(k.clone()).expect("known finding"));
        }
    }
    let replay = replay.map(|p| {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&p).expect("replay file")).expect("json");
        (v["sub"].as_str().unwrap_or_default().to_string(), v["case"].clone())
    });
    let ctx = Ctx {
        prop,
        tier: if tier == "thorough" { Tier::Thorough } else { Tier::Quick },
        seed,
        workers: std::env::var("BH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        root,
        known,
        replay,
        only_sub,
        scale: std::env::var("BH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        stats: Mutex::new(BTreeMap::new()),
        violations: Mutex::new(Vec::new()),
        infra: Mutex::new(Vec::new()),
        known_seen: Mutex::new(BTreeMap::new()),
        assumptions: Mutex::new(Vec::new()),
        start: Instant::now(),
    };
    start_watchdog(ctx.prop.clone(), ctx.root.clone(), ctx.seed);
    check(&ctx);
    let code = ctx.finish();
    // Workers' runtimes and connections may still be winding down.
    std::process::exit(code);
}
