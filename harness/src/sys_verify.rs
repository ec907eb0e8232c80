//! Proof verification of edited instances, proofs and bundles.
use crate::keyring::{pk, vk};
use crate::oracle;
use crate::sys_builder::make_ctx;
use crate::sys_statement::{self, Public};
use crate::util::*;
use ff::Field;
use group::{Group, GroupEncoding};
use halo2_proofs::{plonk, poly::commitment::Params};
use nonempty::NonEmpty;
use orchard::{
    builder::*,
    bundle::{Authorized, Bundle, Flags},
    circuit::{Circuit, Instance, Proof},
    note::{ExtractedNoteCommitment, Nullifier, TransmittedNoteCiphertext},
    primitives::redpallas::{self, Binding, SpendAuth, VerificationKey},
    value::{NoteValue, ValueCommitment},
    Action, Anchor,
};
use pasta_curves::{pallas, vesta};
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};
use std::collections::BTreeMap;

struct Base { insts: Vec<Public>, made: Vec<u8>, again: Vec<u8>, other: Vec<u8> }
struct World {
    bases: BTreeMap<String, Base>,
    foreign: Public,
    params: Params<vesta::Affine>,
    vk2: plonk::VerifyingKey<vesta::Affine>,
}

fn witness(vo: i128, vn: i128, es: bool, eo: bool, special: bool) -> Value {
    json!({"vo": wide(vo), "vn": wide(vn), "scope": if special {"int"} else {"ext"}, "path": if vo == 0 {"bad"} else {"good"}, "pos": "rand",
        "alpha": if special {"unask"} else {"rand"}, "rcv": if special {"zero"} else {"rcv"}, "rho": "nf", "es": es, "eo": eo})
}
fn prove(ms: &[(Circuit, Public)], seed: u64) -> Vec<u8> {
    let c: Vec<Circuit> = ms.iter().map(|m| m.0.clone()).collect();
    let i: Vec<Instance> = ms.iter().map(|m| m.1.instance()).collect();
    Proof::create(pk(), &c, &i, rng(seed, "verify proof")).expect("proof creation").as_ref().to_vec()
}
fn statements(ws: &[Value], seed: u64) -> Vec<(Circuit, Public)> {
    ws.iter().enumerate().map(|(i, w)| {
        let m = sys_statement::make(w, seed.wrapping_mul(31).wrapping_add(i as u64));
        (m.circuit.expect("circuit"), m.honest)
    }).collect()
}
fn built(seed: u64) -> (Vec<Public>, Vec<u8>, Vec<u8>) {
    let mut r = rng(seed, "verify bundle");
    let reqs: Vec<Value> = (1..4).map(|i| json!({"nid": i, "owner": "A", "key": "A", "scope": "ext", "v": wide(r.gen_range(0..1i128 << 40)), "path": "good"})).collect();
    let ctx = make_ctx(&reqs.iter().collect::<Vec<_>>(), seed);
    let mut b = Builder::new(BundleType::DEFAULT, ctx.anchor);
    for i in 1..4 { b.add_spend(ctx.p("A").fvk.clone(), ctx.note(i), ctx.path(i)).expect("spend"); }
    for i in 0..2 { b.add_output(None, ctx.p("B").fvk.address_at(i as u32, orchard::keys::Scope::External), NoteValue::from_raw(r.gen_range(0..1 << 40)), None).expect("output"); }
    let (b, _) = b.build::<i64>(&mut r).expect("build").expect("bundle");
    let insts = b.actions().iter().map(|a| Public {
        anchor: b.anchor().to_bytes(), cv: a.cv_net().to_bytes(), nf: a.nullifier().to_bytes(), rk: a.rk().into(), cmx: a.cmx().to_bytes(),
        es: b.flags().spends_enabled(), eo: b.flags().outputs_enabled(),
    }).collect();
    let mut proof = || {
        let p = b.clone().create_proof(pk(), &mut r).expect("proof").apply_signatures(&mut r, [0; 32], &[ctx.p("A").ask.clone()]).expect("sign");
        p.authorization().proof().as_ref().to_vec()
    };
    let (x, y) = (proof(), proof());
    (insts, x, y)
}
fn world(seed: u64, names: &[String]) -> World {
    let max = u64::MAX as i128;
    let table: Vec<(&str, Vec<Value>)> = vec![
        ("one", vec![witness(0, 7, false, true, false)]),
        ("pair", vec![witness(1000, 0, true, false, false), witness(0, max, false, true, false)]),
        ("identity", vec![witness(max, max, true, true, true)]),
    ];
    let mut bases = BTreeMap::new();
    for (k, ws) in &table {
        if *k != "one" && !names.iter().any(|n| n == k) { continue; }
        let (ms, os) = (statements(ws, seed), statements(ws, seed + 1000));
        bases.insert(k.to_string(), Base { made: prove(&ms, seed), again: prove(&ms, seed + 1), other: prove(&os, seed), insts: ms.into_iter().map(|m| m.1).collect() });
    }
    if names.iter().any(|n| n == "bundle") {
        let (insts, made, again) = built(seed);
        let other = bases["one"].made.clone();
        bases.insert("bundle".into(), Base { insts, made, again, other });
    }
    let foreign = statements(&[witness(5, 6, true, true, false)], seed + 5).remove(0).1;
    let params = Params::new(11);
    let vk2 = plonk::keygen_vk(&params, &Circuit::default()).expect("keygen");
    World { bases, foreign, params, vk2 }
}
impl World {
    fn value(&self, base: &str, f: &str, x: &str, seed: u64) -> [u8; 32] {
        let of = |x: &str| -> [u8; 32] {
            let k = x.trim_end_matches(|c: char| c.is_ascii_digit());
            let i: usize = x[k.len()..].parse().unwrap();
            let p = if i == 9 { &self.foreign } else { &self.bases[base].insts[i - 1] };
            match k { "anchor" => p.anchor, "cv" => p.cv, "nf" => p.nf, "rk" => p.rk, "cmx" => p.cmx, k => panic!("name {k}") }
        };
        match x {
            "fresh" => {
                let mut r = rng(seed, &format!("fresh {f}"));
                if f == "cv" || f == "rk" { pallas::Point::random(&mut r).to_bytes() } else { oracle::base_bytes(&pallas::Base::random(&mut r)) }
            }
            "zero" | "id" => [0; 32],
            _ => match x.strip_prefix('-') { Some(y) => (-oracle::point(&of(y)).unwrap()).to_bytes(), None => of(x) },
        }
    }
    fn exec(&self, run: &Run, seed: u64) -> Run {
        let mut r = rng(seed, "verify run");
        let base = s(&run[0], "base");
        let bs = &self.bases[base];
        let (mut insts, mut proof) = (bs.insts.clone(), bs.made.clone());
        let mut out = vec![run[0].clone()];
        for c in &run[1..] {
            let mut ev = c.clone();
            let res = guard(|| {
                let set = |p: &mut Public, f: &str| match f {
                    "es" => p.es = b(c, "x"),
                    "eo" => p.eo = b(c, "x"),
                    f => { let v = self.value(base, f, s(c, "x"), seed); match f { "anchor" => p.anchor = v, "cv" => p.cv = v, "nf" => p.nf = v, "rk" => p.rk = v, "cmx" => p.cmx = v, _ => panic!("field") } }
                };
                match s(c, "op") {
                    "replace" => set(&mut insts[n(c, "i") as usize - 1], s(c, "f")),
                    "all" => for p in insts.iter_mut() { set(p, s(c, "f")) },
                    "swap" => insts.swap(n(c, "i") as usize - 1, n(c, "j") as usize - 1),
                    "drop" => { insts.remove(n(c, "i") as usize - 1); }
                    "dup" => { let x = insts[n(c, "k") as usize - 1].clone(); insts.insert(n(c, "i") as usize, x); }
                    "foreign" => insts.insert(n(c, "i") as usize, self.foreign.clone()),
                    "reproof" => proof = match s(c, "x") {
                        "made" => bs.made.clone(),
                        "again" => bs.again.clone(),
                        "other" => bs.other.clone(),
                        "empty" => vec![],
                        "short" => { let k = [1, 32, 64, bs.made.len() / 2][r.gen_range(0..4)]; bs.made[..bs.made.len() - k].to_vec() }
                        x => {
                            let k: usize = x[3..].parse().unwrap();
                            let mut p = bs.made.clone();
                            let i = k * p.len() / 16 + r.gen_range(0..p.len() / 16);
                            p[i] ^= 1 << r.gen_range(0..8);
                            p
                        }
                    },
                    "verify" => {
                        let ok = self.verify(&insts, Proof::new(proof.clone()), s(c, "route"), s(c, "extra"), &mut r);
                        ev["res"] = json!(if ok { "valid" } else { "invalid" });
                    }
                    x => panic!("op {x}"),
                }
            });
            if let Err(m) = res { ev["panic"] = json!(m); out.push(ev); break; }
            out.push(ev);
        }
        out
    }
    fn verify(&self, ps: &[Public], proof: Proof, route: &str, extra: &str, r: &mut Rng) -> bool {
        let insts = |ps: &[Public]| -> Vec<Instance> { ps.iter().map(|p| p.instance()).collect() };
        match route {
            "verify" => proof.verify(vk(), &insts(ps)).is_ok(),
            "batch" | "batch+" => {
                let mut batch = plonk::BatchVerifier::new();
                let one = &self.bases["one"];
                let before = r.gen::<bool>();
                let mut add = |b: &mut plonk::BatchVerifier<vesta::Affine>, yes: bool| if route == "batch+" && yes { Proof::new(one.made.clone()).add_to_batch(b, insts(&one.insts)) };
                add(&mut batch, before);
                proof.add_to_batch(&mut batch, insts(ps));
                add(&mut batch, !before);
                batch.finalize(&self.params, &self.vk2)
            }
            _ => {
                let actions: Vec<Action<redpallas::Signature<SpendAuth>>> = ps.iter().enumerate().map(|(i, p)| {
                    let mut enc = [0u8; 580];
                    r.fill_bytes(&mut enc);
                    let mut sig = [0u8; 64];
                    r.fill_bytes(&mut sig);
                    if extra == "cipher" && i == 0 { enc = [0; 580]; }
                    if extra == "spendsig" && i == 0 { sig = [0xff; 64]; }
                    Action::from_parts(
                        Nullifier::from_bytes(&p.nf).unwrap(),
                        VerificationKey::<SpendAuth>::try_from(p.rk).unwrap(),
                        ExtractedNoteCommitment::from_bytes(&p.cmx).unwrap(),
                        TransmittedNoteCiphertext { epk_bytes: if extra == "cipher" { [0xff; 32] } else { pallas::Point::random(&mut *r).to_bytes() }, enc_ciphertext: enc, out_ciphertext: [7; 80] },
                        ValueCommitment::from_bytes(&p.cv).unwrap(),
                        redpallas::Signature::from(sig),
                    )
                }).collect();
                let flags = Flags::from_byte(u8::from(ps[0].es) | u8::from(ps[0].eo) << 1).unwrap();
                let anchor = Anchor::from_bytes(ps[0].anchor).unwrap();
                if route == "action" {
                    let is: Vec<Instance> = actions.iter().map(|a| a.to_instance(flags, anchor)).collect();
                    return proof.verify(vk(), &is).is_ok();
                }
                let bsig = redpallas::Signature::<Binding>::from(if extra == "bindsig" { [0xff; 64] } else { [1; 64] });
                let balance: i64 = if extra == "balance" { i64::MIN } else { r.gen() };
                Bundle::<Authorized, i64>::from_parts(NonEmpty::from_vec(actions).unwrap(), flags, balance, anchor, Authorized::from_parts(proof, bsig)).verify_proof(vk()).is_ok()
            }
        }
    }
}
pub fn exec_runs(runs: &[Run], seed: u64, reps: usize) -> Vec<Run> {
    let names: Vec<String> = runs.iter().map(|r| s(&r[0], "base").to_string()).collect();
    (0..reps as u64).flat_map(|i| { let w = world(seed.wrapping_add(i * 77), &names); exec_all(runs, seed.wrapping_add(i * 977), |r, sd| w.exec(r, sd)) }).collect()
}
