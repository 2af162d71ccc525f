//! Mechanical extraction of the verified text from /repo/src.
//!
//! usage: extract items SRC_DIR
//!        extract SRC_DIR CONTRACTS_DIR OUT.rs MAP.json [--baseline FILE] [--write-baseline FILE]
//!                [--external KEY]... [--bare KEY]... [--probe KEY]
mod contracts;
mod emit;
mod inline;
mod items;
mod loops;
mod mac;
mod rewrite;
mod util;

use std::collections::{BTreeMap, BTreeSet};

pub struct Opts {
    pub external: BTreeSet<String>,
    pub bare: BTreeSet<String>,
    pub probe: Option<String>,
    pub baseline: BTreeMap<String, emit::Shape>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "items" { items::main(&args[2]); return; }
    if args.len() < 5 {
        eprintln!("usage: extract SRC CONTRACTS OUT MAP [options]");
        std::process::exit(2);
    }
    let (src, cdir, out, map) = (&args[1], &args[2], &args[3], &args[4]);
    let mut opts = Opts { external: BTreeSet::new(), bare: BTreeSet::new(), probe: None, baseline: BTreeMap::new() };
    let mut write_baseline = None;
    let mut i = 5;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--external" => { opts.external.insert(v); }
            "--bare" => { opts.bare.insert(v); }
            "--probe" => opts.probe = Some(v),
            "--baseline" => opts.baseline = emit::read_baseline(&v),
            "--write-baseline" => write_baseline = Some(v),
            x => { eprintln!("unknown option {x}"); std::process::exit(2); }
        }
        i += 2;
    }
    let contracts = match contracts::load(cdir) {
        Ok(c) => c,
        Err(e) => { eprintln!("contracts: {e}"); std::process::exit(2); }
    };
    let r = match emit::run(src, cdir, &contracts, &opts) {
        Ok(r) => r,
        Err(e) => { eprintln!("extract: {e}"); std::process::exit(3); }
    };
    std::fs::write(out, &r.text).unwrap();
    std::fs::write(map, &r.map_json).unwrap();
    if let Some(f) = write_baseline { std::fs::write(f, &r.baseline_json).unwrap(); }
}
