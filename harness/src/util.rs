//! Shared helpers: JSON access, wide integers, seeding, panic capture, run files.
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Rng = ChaCha20Rng;
/// One behaviour: a sequence of commands (in) or events (out).
pub type Run = Vec<Value>;

const B: i128 = 1 << 24;

/// A wide integer as the specification writes it: a + b*2^24 + c*2^48, 0 <= a,b < 2^24.
pub fn wide(x: i128) -> Value {
    let a = x.rem_euclid(B);
    let x = (x - a) / B;
    let b = x.rem_euclid(B);
    let c = (x - b) / B;
    json!([a as i64, b as i64, c as i64])
}
pub fn unwide(v: &Value) -> i128 {
    let g = |i: usize| v[i].as_i64().expect("wide limb") as i128;
    g(0) + g(1) * B + g(2) * B * B
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("field {k} of {v}"))
}
pub fn n(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("field {k} of {v}"))
}
pub fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or_else(|| panic!("field {k} of {v}"))
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array().unwrap_or_else(|| panic!("field {k} of {v}"))
}

/// A 32-byte digest of a seed and a label, for deterministic test data.
pub fn h32(seed: u64, label: &str) -> [u8; 32] {
    let d = blake2b_simd::Params::new()
        .hash_length(32)
        .personal(b"orchard_conforma")
        .to_state()
        .update(&seed.to_le_bytes())
        .update(label.as_bytes())
        .finalize();
    d.as_bytes().try_into().unwrap()
}
pub fn rng(seed: u64, label: &str) -> Rng {
    ChaCha20Rng::from_seed(h32(seed, label))
}

/// Runs code under test; a panic becomes an Err with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// Reads behaviours, drops duplicates and those that are a prefix of another.
pub fn read_runs(path: &str) -> Vec<Run> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| tool_error(&format!("{path}: {e}")));
    let mut lines: Vec<String> = std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            // TLC writes a TLA+ string: a JSON string holding JSON.
            if l.starts_with('"') {
                serde_json::from_str::<String>(&l).unwrap_or_else(|e| tool_error(&format!("{e}: {l}")))
            } else {
                l
            }
        })
        .collect();
    lines.sort();
    lines.dedup();
    let mut out: Vec<Run> = vec![];
    for i in 0..lines.len() {
        // In sorted order (',' < ']') the extensions of a behaviour directly precede it.
        let stem = &lines[i][..lines[i].len() - 1];
        if i > 0 && lines[i - 1].starts_with(stem) && lines[i - 1][stem.len()..].starts_with(',') {
            continue;
        }
        // Terms nest deeply.
        let mut de = serde_json::Deserializer::from_str(&lines[i]);
        de.disable_recursion_limit();
        out.push(serde::Deserialize::deserialize(&mut de).unwrap_or_else(|e| tool_error(&format!("{e}: {}", lines[i]))));
    }
    out
}

pub fn write_runs(path: &str, runs: &[Run]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for r in runs {
        writeln!(f, "{}", serde_json::to_string(r).unwrap()).unwrap();
    }
}

pub fn tool_error(msg: &str) -> ! {
    eprintln!("TOOL-ERROR {msg}");
    std::process::exit(2)
}

/// Executes behaviours in parallel. `step` runs one command and appends events.
pub fn exec_all(runs: &[Run], seed: u64, f: impl Fn(&Run, u64) -> Run + Sync) -> Vec<Run> {
    runs.par_iter()
        .enumerate()
        .map(|(i, r)| f(r, seed.wrapping_mul(1_000_003).wrapping_add(i as u64)))
        .collect()
}
