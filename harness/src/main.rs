//! Drives the real orchard crate through behaviours of the TLA+ specification and records
//! what it does, for TLC to judge.  See /verif/DESIGN.md.
mod eval;
mod keyring;
mod oracle;
mod sys_auth;
mod stock;
mod sys_batch;
mod sys_builder;
mod sys_commit;
mod sys_enc;
mod sys_fresh;
mod sys_keys;
mod sys_noteenc;
mod sys_ledger;
mod sys_notes;
mod sys_purity;
mod sys_same;
mod sys_signature;
mod sys_statement;
mod sys_tree;
mod sys_values;
mod sys_verify;
mod sys_whole;
mod sys_wire;
mod sys_zip32;
mod util;
mod world;

use std::collections::HashMap;
use util::*;

fn main() {
    // A panic outside any recorded step: the crate refused something every behaviour needs.
    if let Err(m) = guard(run_main) {
        println!("{}", serde_json::json!({"panic": m}));
        std::process::exit(3);
    }
}
fn run_main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str| opt.get(k).cloned();
    let seed: u64 = get("seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let random: usize = get("random").and_then(|x| x.parse().ok()).unwrap_or(0);
    let num = |k: &str, d: usize| get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let focus = get("focus").unwrap_or_default();
    let out = get("out").unwrap_or_else(|| tool_error("--out"));
    let mut runs: Vec<Run> = get("in").map(|p| read_runs(&p)).unwrap_or_default();
    let generated = runs.len();
    // Replaying one recorded run needs its original seed offset.
    let offset: u64 = get("offset").and_then(|x| x.parse().ok()).unwrap_or(0);
    if matches!(args.get(1).map(|x| x.as_str()), Some("auth" | "statement" | "verify" | "batch" | "whole" | "ledger" | "signature" | "wire" | "purity")) { keyring::init(); }
    let res = match args.get(1).map(|x| x.as_str()) {
        Some("builder") => {
            runs.extend(sys_builder::random(seed, random, &focus));
            exec_all(&runs, seed, |r, sd| sys_builder::exec(r, sd + offset))
        }
        Some("auth") => sys_auth::exec_runs(&runs, seed),
        Some("keys") => sys_keys::exec_runs(&runs, seed, random, num("chunk", 60)),
        Some("commit") => {
            let mut a = vec![];
            for i in 0..num("reps", 1) as u64 { a.extend(exec_all(&runs, seed.wrapping_add(i * 977), sys_commit::exec)); }
            a
        }
        Some("noteenc") => sys_noteenc::exec_runs(&runs, seed, random, num("reps", 1)),
        Some("zip32") => sys_zip32::exec_runs(&runs, seed, random),
        Some("tree") => sys_tree::exec_runs(&runs, seed, num("reps", 1)),
        Some("values") => sys_values::exec_runs(&runs, seed, random, num("reps", 1)),
        Some("statement") => sys_statement::exec_runs(&runs, seed, num("reps", 1)),
        Some("verify") => sys_verify::exec_runs(&runs, seed, num("reps", 1)),
        Some("batch") => sys_batch::exec_runs(&runs, seed, num("reps", 1)),
        Some("signature") => sys_signature::exec_runs(&runs, seed, num("reps", 1)),
        Some("whole") => sys_whole::exec_runs(&runs, seed, random),
        Some("wire") => sys_wire::exec_runs(&runs, seed, num("reps", 1)),
        Some("purity") => sys_purity::exec_runs(&runs, seed, random, num("worlds", 4), num("storm", 80) as u64),
        Some("same") => sys_same::exec_runs(&runs, seed, num("reps", 1)),
        Some("fresh") => sys_fresh::exec_runs(&runs, seed),
        Some("ledger") => sys_ledger::exec_runs(&runs, seed),
        Some("notes") => sys_notes::exec_runs(&runs, seed, random, num("reps", 1)),
        Some("enc") => {
            let mut a = vec![];
            for i in 0..num("reps", 3) as u64 { a.extend(exec_all(&runs, seed.wrapping_add(i * 977), sys_enc::exec)); }
            a.extend(sys_enc::random(seed, random));
            a
        }
        x => tool_error(&format!("unknown system {x:?}")),
    };
    write_runs(&out, &res);
    let events: usize = res.iter().map(|r| r.len()).sum();
    println!("{}", serde_json::json!({"generated": generated, "runs": res.len(), "events": events}));
}
