//! Batches of bundles with and without defects.
use crate::keyring::vk;
use crate::stock::{self, *};
use crate::sys_auth::sighash;
use crate::util::*;
use orchard::{bundle::{BatchValidator, Flags}, primitives::redpallas, Anchor};
use rayon::prelude::*;
use rand::Rng as _;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn member(st: &Stock, m: &Value, seed: u64) -> (Full, [u8; 32]) {
    let mut r = rng(seed, &m.to_string());
    let b = s(m, "b");
    let other = match b { "a" => "b", "b" => "a", _ => "a" };
    let (mut acts, mut flags, mut bal, mut anchor, mut proof, _) = st.parts(b);
    let sl = &st.items[b].slot;
    let sig_at = |h: &str, i: usize| -> [u8; 64] { st.full(b, h).actions()[i].authorization().into() };
    for (i, q) in arr(m, "ss").iter().enumerate() {
        let from = if s(q, "by") == "peer" { sl[(i + 1) % sl.len()] } else { sl[i] };
        let x = redpallas::Signature::from(off(sig_at(s(q, "h"), from), n(q, "off"), &mut r));
        acts[sl[i]] = acts[sl[i]].clone().map(|_| x);
    }
    let q = &m["bs"];
    let bs = off(st.full(if s(q, "by") == "peer" { other } else { b }, s(q, "h")).authorization().binding_signature().into(), n(q, "off"), &mut r);
    match s(m, "proof") {
        "own" => {}
        "bent" => { let k = r.gen_range(0..proof.len()); proof[k] ^= 1 << r.gen_range(0..8) }
        "other" => proof = st.full(other, "h1").authorization().proof().as_ref().to_vec(),
        _ => proof.clear(),
    }
    match s(m, "insts") {
        "own" => {}
        "anchor" => anchor = if anchor == Anchor::empty_tree() { Anchor::from_bytes([0; 32]).unwrap() } else { Anchor::empty_tree() },
        "flags" => flags = Flags::from_byte(flags.to_byte() ^ (1 << r.gen_range(0..2))).unwrap(),
        _ => acts.swap(0, 1),
    }
    bal += n(m, "bal");
    (assemble((acts, flags, bal, anchor, proof, bs)), sighash(s(m, "h"), st.seed))
}
struct Known { full: Full, h: [u8; 32], facts: Value }
fn known(st: &Stock, m: &Value, seed: u64) -> Known {
    let (full, h) = member(st, m, seed);
    let sl = &st.items[s(m, "b")].slot;
    let swapped = s(m, "insts") == "order";
    let ss: Vec<bool> = sl.iter().map(|&i| { let a = &full.actions()[if swapped && i < 2 { 1 - i } else { i }]; a.rk().verify(&h, a.authorization()).is_ok() }).collect();
    let facts = json!({"proof": full.verify_proof(vk()).is_ok(), "ss": ss, "bs": full.binding_validating_key().verify(&h, full.authorization().binding_signature()).is_ok()});
    Known { full, h, facts }
}
pub fn exec_runs(runs: &[Run], seed: u64, reps: usize) -> Vec<Run> {
    let mut all = vec![];
    for i in 0..reps as u64 {
        let seed = seed.wrapping_add(i * 977);
        let st = stock::make(&["a", "b", "c", "e"], seed);
        let mut ms: BTreeMap<String, Value> = BTreeMap::new();
        for c in runs.iter().flatten() { if c.get("m").is_some() { ms.insert(c["m"].to_string(), c["m"].clone()); } }
        let cat: BTreeMap<String, Result<Known, String>> = ms.par_iter().map(|(k, m)| (k.clone(), guard(|| known(&st, m, seed)))).collect();
        all.extend(exec_all(runs, seed, |run, sd| {
            let mut v = BatchValidator::new();
            let mut out = vec![];
            for c in run {
                let mut ev = c.clone();
                let res = guard(std::panic::AssertUnwindSafe(|| {
                    if s(c, "op") == "add" {
                        let k = match &cat[&c["m"].to_string()] { Ok(k) => k, Err(e) => panic!("{e}") };
                        ev["facts"] = k.facts.clone();
                        v.add_bundle(&k.full, k.h);
                    } else {
                        ev["res"] = json!(std::mem::take(&mut v).validate(vk(), rng(sd, "validate")));
                    }
                }));
                if let Err(m) = res { ev["panic"] = json!(m); out.push(ev); break; }
                out.push(ev);
            }
            out
        }));
    }
    all
}
