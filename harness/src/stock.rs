//! Authorized bundles made by the real pipeline, and the parts needed to alter them.
use crate::keyring::pk;
use crate::oracle;
use crate::sys_auth::sighash;
use crate::sys_builder::{make_ctx, Ctx};
use crate::util::*;
use ff::PrimeField;
use nonempty::NonEmpty;
use orchard::{
    builder::*,
    bundle::{Authorized, Bundle, Flags},
    circuit::Proof,
    keys::Scope,
    primitives::redpallas::{self, SpendAuth},
    value::{NoteValue, ValueCommitment},
    Action, Anchor,
};
use pasta_curves::pallas;
use rand::Rng as _;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type Full = Bundle<Authorized, i64>;
pub type SpendSig = redpallas::Signature<SpendAuth>;
pub struct Item { pub ctx: Ctx, pub by_hash: BTreeMap<String, Full>, pub slot: Vec<usize> }
pub struct Stock { pub items: BTreeMap<String, Item>, pub seed: u64 }

fn one(name: &str, seed: u64) -> Item {
    let (spends, outs, coinbase): (&[&str], usize, bool) = match name {
        "a" => (&["A", "B"], 1, false),
        "b" => (&["A"], 2, false),
        "c" => (&[], 1, true),
        "d" => (&["A", "A", "A"], 1, false),
        "e" => (&["B"], 1, false), // moves no value
        x => panic!("bundle {x}"),
    };
    let mut r = rng(seed, &format!("stock {name}"));
    let reqs: Vec<Value> = spends.iter().enumerate().map(|(i, o)| json!({"nid": i as i64 + 1, "owner": o, "key": o, "scope": if r.gen() {"ext"} else {"int"}, "v": wide(r.gen_range(1..1i128 << 40)), "path": "good"})).collect();
    let ctx = make_ctx(&reqs.iter().collect::<Vec<_>>(), seed ^ h32(seed, name)[0] as u64);
    let mut b = Builder::new(if coinbase { BundleType::Coinbase } else { BundleType::DEFAULT }, ctx.anchor);
    for q in &reqs { b.add_spend(ctx.p(s(q, "key")).fvk.clone(), ctx.note(n(q, "nid")), ctx.path(n(q, "nid"))).expect("add_spend"); }
    for i in 0..outs {
        let v = if name == "e" { ctx.note(1).value() } else { NoteValue::from_raw(r.gen_range(1..1 << 40)) };
        b.add_output(Some(ctx.p("A").ovk(Scope::External)), ctx.p("B").fvk.address_at(i as u32, Scope::External), v, None).expect("add_output");
    }
    let (b, meta) = b.build::<i64>(&mut r).expect("build").expect("bundle");
    let mut slot: Vec<usize> = (0..spends.len()).map(|i| meta.spend_action_index(i).unwrap()).collect();
    for i in 0..b.actions().len() { if !slot.contains(&i) { slot.push(i) } }
    let b = b.create_proof(pk(), &mut r).expect("proof");
    let keys = ["A", "B"].map(|k| ctx.p(k).ask.clone());
    let by_hash = ["h1", "h2"].iter().map(|h| (h.to_string(), b.clone().apply_signatures(&mut r, sighash(h, seed), &keys).expect("apply_signatures"))).collect();
    Item { ctx, by_hash, slot }
}
pub fn make(names: &[&str], seed: u64) -> Stock {
    Stock { items: names.iter().map(|k| (k.to_string(), one(k, seed))).collect(), seed }
}
/// A signature with its scalar off by one, or (9) replaced by noise.
pub fn off(b: [u8; 64], by: i64, r: &mut Rng) -> [u8; 64] {
    let mut b = b;
    match by {
        0 => {}
        1 | -1 => {
            let x = oracle::scalar(&b[32..]).expect("scalar");
            let one = pallas::Scalar::from(1);
            b[32..].copy_from_slice(&(if by == 1 { x + one } else { x - one }).to_repr());
        }
        _ => match r.gen_range(0..4) {
            0 => r.fill(&mut b[..]),
            1 => b[r.gen_range(0..64)] ^= 1 << r.gen_range(0..8),
            2 => b = [0; 64],
            _ => b[..32].copy_from_slice(&[0; 32]),
        },
    }
    b
}
pub type Parts = (Vec<Action<SpendSig>>, Flags, i64, Anchor, Vec<u8>, [u8; 64]);
impl Stock {
    pub fn full(&self, b: &str, h: &str) -> &Full { &self.items[b].by_hash[h] }
    pub fn parts(&self, b: &str) -> Parts {
        let f = self.full(b, "h1");
        (f.actions().iter().cloned().collect(), *f.flags(), *f.value_balance(), *f.anchor(), f.authorization().proof().as_ref().to_vec(), f.authorization().binding_signature().into())
    }
}
pub fn assemble(p: Parts) -> Full {
    Bundle::from_parts(NonEmpty::from_vec(p.0).unwrap(), p.1, p.2, p.3, Authorized::from_parts(Proof::new(p.4), redpallas::Signature::from(p.5)))
}
pub fn with_cv(a: &Action<SpendSig>, cv: ValueCommitment) -> Action<SpendSig> {
    Action::from_parts(*a.nullifier(), a.rk().clone(), *a.cmx(), a.encrypted_note().clone(), cv, a.authorization().clone())
}
