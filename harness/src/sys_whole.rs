//! The whole life of bundles, from request to verification, by the real code.
use crate::keyring::{pk, vk};
use crate::sys_auth::sighash;
use crate::sys_builder::{bundle_type, make_ctx};
use crate::util::*;
use crate::world::memo;
use nonempty::NonEmpty;
use orchard::{
    builder::*,
    bundle::{Authorized, BatchValidator, Bundle, Flags},
    circuit::Proof,
    note::{ExtractedNoteCommitment, Nullifier, TransmittedNoteCiphertext},
    primitives::redpallas,
    value::{NoteValue, ValueCommitment},
    Action, Anchor,
};
use rand::{seq::SliceRandom, Rng as _};
use rayon::prelude::*;
use serde_json::{json, Value};

type Full = Bundle<Authorized, i64>;
/// Everything the bundle consists of, encoded and read back.
pub fn over_the_wire(f: &Full) -> Option<Full> {
    let acts: Option<Vec<_>> = f.actions().iter().map(|a| {
        let e = a.encrypted_note();
        Some(Action::from_parts(
            Option::from(Nullifier::from_bytes(&a.nullifier().to_bytes()))?,
            redpallas::VerificationKey::try_from(<[u8; 32]>::from(a.rk())).ok()?,
            Option::from(ExtractedNoteCommitment::from_bytes(&a.cmx().to_bytes()))?,
            TransmittedNoteCiphertext { epk_bytes: e.epk_bytes, enc_ciphertext: e.enc_ciphertext, out_ciphertext: e.out_ciphertext },
            Option::from(ValueCommitment::from_bytes(&a.cv_net().to_bytes()))?,
            redpallas::Signature::from(<[u8; 64]>::from(a.authorization())),
        ))
    }).collect();
    let auth = Authorized::from_parts(Proof::new(f.authorization().proof().as_ref().to_vec()), redpallas::Signature::from(<[u8; 64]>::from(f.authorization().binding_signature())));
    Some(Bundle::from_parts(NonEmpty::from_vec(acts?)?, Flags::from_byte(f.flags().to_byte())?, *f.value_balance(), Option::from(Anchor::from_bytes(f.anchor().to_bytes()))?, auth))
}
fn accepted(f: &Full, h: [u8; 32], seed: u64) -> bool {
    let mut v = BatchValidator::new();
    v.add_bundle(f, h);
    v.validate(vk(), rng(seed, "validate"))
}
fn facts(f: &Full, h: [u8; 32], seed: u64) -> Value {
    let mut h2 = h;
    h2[(seed % 32) as usize] ^= 1 << (seed % 8);
    json!({"proof": f.verify_proof(vk()).is_ok(),
        "sigs": f.actions().iter().map(|a| a.rk().verify(&h, a.authorization()).is_ok()).collect::<Vec<_>>(),
        "binding": f.binding_validating_key().verify(&h, f.authorization().binding_signature()).is_ok(),
        "batch": accepted(f, h, seed),
        "wire": over_the_wire(f).map_or(false, |g| accepted(&g, h, seed)),
        "other": accepted(f, h2, seed)})
}
enum St {
    Open(Builder),
    Raw(UnauthorizedBundle<i64>),
    Proven(Bundle<InProgress<Proof, Unauthorized>, i64>),
    RawSigning(Bundle<InProgress<Unproven, PartiallyAuthorized>, i64>),
    Signing(Bundle<InProgress<Proof, PartiallyAuthorized>, i64>),
    Final(Full),
    Gone,
}
fn exec(run: &Run, seed: u64) -> Run {
    let reqs: Vec<&Value> = run.iter().filter(|c| s(c, "op") == "add_spend").map(|c| &c["req"]).collect();
    let ctx = make_ctx(&reqs, seed);
    let mut r = rng(seed, "whole");
    let mut st = St::Open(Builder::new(bundle_type(&run[0]["type"]), ctx.anchor));
    let mut out = vec![run[0].clone()];
    let h = sighash("h1", seed);
    for c in &run[1..] {
        let mut ev = c.clone();
        let res = guard(std::panic::AssertUnwindSafe(|| {
            let cur = std::mem::replace(&mut st, St::Gone);
            st = match (s(c, "op"), cur) {
                (_, St::Gone) => return false,
                ("add_spend", St::Open(mut b)) => {
                    let q = &c["req"];
                    ev["res"] = json!(match b.add_spend(ctx.p(s(q, "key")).fvk.clone(), ctx.note(n(q, "nid")), ctx.path(n(q, "nid"))) { Ok(()) => "Ok".into(), Err(e) => format!("{e:?}") });
                    St::Open(b)
                }
                ("add_output", St::Open(mut b)) => {
                    let q = &c["req"];
                    ev["res"] = json!(match b.add_output(ctx.ovk(s(q, "ovk")), ctx.out_addr(q), NoteValue::from_raw(unwide(&q["v"]) as u64), memo(s(q, "memo"))) { Ok(()) => "Ok".into(), Err(e) => format!("{e:?}") });
                    St::Open(b)
                }
                ("build", St::Open(b)) => match b.build::<i64>(&mut r) {
                    Ok(Some((b, _))) => { ev["res"] = json!("bundle"); ev["n"] = json!(b.actions().len()); St::Raw(b) }
                    Ok(None) => { ev["res"] = json!("none"); St::Gone }
                    Err(e) => { ev["res"] = json!(format!("{e:?}")); St::Gone }
                },
                ("prove", St::Raw(b)) => match b.create_proof(pk(), &mut r) {
                    Ok(b) => { ev["res"] = json!("ok"); St::Proven(b) }
                    Err(e) => { ev["res"] = json!(format!("{e:?}")); St::Gone }
                },
                ("prove", St::RawSigning(b)) => match b.create_proof(pk(), &mut r) {
                    Ok(b) => { ev["res"] = json!("ok"); St::Signing(b) }
                    Err(e) => { ev["res"] = json!(format!("{e:?}")); St::Gone }
                },
                ("prepare", St::Raw(b)) => St::RawSigning(b.prepare(&mut r, h)),
                ("prepare", St::Proven(b)) => St::Signing(b.prepare(&mut r, h)),
                ("sign", St::RawSigning(b)) => St::RawSigning(b.sign(&mut r, &ctx.p(s(c, "key")).ask)),
                ("sign", St::Signing(b)) => St::Signing(b.sign(&mut r, &ctx.p(s(c, "key")).ask)),
                ("finalize", St::Signing(b)) => match b.finalize() {
                    Ok(b) => { ev["res"] = json!("ok"); St::Final(b) }
                    Err(e) => { ev["res"] = json!(format!("{e:?}")); St::Gone }
                },
                ("check", St::Final(b)) => { ev["facts"] = facts(&b, h, seed); St::Final(b) }
                (x, _) => panic!("step {x} out of order"),
            };
            true
        }));
        match res {
            Ok(true) => out.push(ev),
            Ok(false) => break,
            Err(m) => { ev["panic"] = json!(m); out.push(ev); break; }
        }
    }
    out
}
fn random(seed: u64, i: usize) -> Run {
    let mut r = rng(seed, &format!("whole random {i}"));
    let ty = match r.gen_range(0..8) {
        0 => json!({"kind": "cb", "flags": 2, "req": false}),
        1 => json!({"kind": "tx", "flags": 1, "req": r.gen::<bool>()}),
        2 => json!({"kind": "tx", "flags": 2, "req": r.gen::<bool>()}),
        _ => json!({"kind": "tx", "flags": 3, "req": r.gen::<bool>()}),
    };
    let f = ty["flags"].as_i64().unwrap();
    let value = |r: &mut Rng| -> i128 { match r.gen_range(0..4) { 0 => 0, 1 => 1, 2 => (r.gen::<u64>() >> r.gen_range(3..64)) as i128, _ => r.gen_range(0..2_100_000_000_000_000i128) } };
    let (ns, no) = (if f & 1 == 1 { r.gen_range(0..4) } else { 0 }, if f & 2 == 2 { r.gen_range(0..4) } else { 0 });
    let mut run = vec![json!({"op": "new", "type": ty})];
    let mut owners = vec![];
    for k in 0..ns {
        let o = *["A", "A", "B", "C"].choose(&mut r).unwrap();
        let v = value(&mut r);
        owners.push(o);
        run.push(json!({"op": "add_spend", "req": {"nid": k + 1, "owner": o, "key": o, "scope": *["ext", "int"].choose(&mut r).unwrap(), "v": wide(v), "path": if v == 0 && r.gen() {"bad"} else {"good"}}}));
    }
    for _ in 0..no {
        let v = value(&mut r);
        run.push(json!({"op": "add_output", "req": {"to": *["A", "B", "C"].choose(&mut r).unwrap(), "scope": *["ext", "int"].choose(&mut r).unwrap(), "idx": r.gen_range(0..1000), "v": wide(v),
            "memo": *["none", "zero", "m1"].choose(&mut r).unwrap(), "ovk": *["none", "A.ext", "B.int"].choose(&mut r).unwrap()}}));
    }
    run.push(json!({"op": "build"}));
    let first = r.gen::<bool>();
    if first { run.push(json!({"op": "prove"})) }
    run.push(json!({"op": "prepare"}));
    owners.sort();
    owners.dedup();
    if r.gen_range(0..4) == 0 { owners.push("X") }
    owners.shuffle(&mut r);
    for o in owners { run.push(json!({"op": "sign", "key": o})) }
    if !first { run.push(json!({"op": "prove"})) }
    run.push(json!({"op": "finalize"}));
    run.push(json!({"op": "check"}));
    run
}
pub fn exec_runs(runs: &[Run], seed: u64, count: usize) -> Vec<Run> {
    let mut all = runs.to_vec();
    all.extend((0..count).map(|i| random(seed, i)));
    all.par_iter().enumerate().map(|(i, r)| exec(r, seed.wrapping_mul(1000).wrapping_add(i as u64))).collect()
}
