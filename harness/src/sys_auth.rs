//! Executes authorization behaviours on real bundles and records every slot's state.
use crate::keyring::{pk, vk};
use crate::sys_builder::{make_ctx, Ctx};
use crate::util::*;
use orchard::{
    builder::*,
    bundle::{Authorization, Authorized, Bundle, Flags},
    circuit::Proof,
    keys::*,
    primitives::redpallas::{self, SpendAuth},
    value::NoteValue,
    Action,
};
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Mutex;

pub type UU = Bundle<InProgress<Unproven, Unauthorized>, i64>;
pub type PU = Bundle<InProgress<Proof, Unauthorized>, i64>;
pub type UP = Bundle<InProgress<Unproven, PartiallyAuthorized>, i64>;
pub type PP = Bundle<InProgress<Proof, PartiallyAuthorized>, i64>;
pub type FF = Bundle<Authorized, i64>;

pub enum St { UU(UU), PU(PU), UP(UP), PP(PP), F(FF), Gone }

/// Draws the same scalar every time.
#[derive(Clone)]
struct ConstRng(u64);
impl RngCore for ConstRng {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { self.0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for (i, b) in d.iter_mut().enumerate() { *b = (self.0 >> (8 * (i % 8))) as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand::CryptoRng for ConstRng {}

/// Everything a bundle does, as bytes.
pub fn effects<A: Authorization>(b: &Bundle<A, i64>) -> Vec<u8> {
    let mut v = vec![];
    for a in b.actions().iter() {
        v.extend_from_slice(&a.nullifier().to_bytes());
        v.extend_from_slice(&<[u8; 32]>::from(a.rk()));
        v.extend_from_slice(&a.cmx().to_bytes());
        v.extend_from_slice(&a.cv_net().to_bytes());
        v.extend_from_slice(&a.rho().to_bytes());
        v.extend_from_slice(&a.encrypted_note().epk_bytes);
        v.extend_from_slice(&a.encrypted_note().enc_ciphertext);
        v.extend_from_slice(&a.encrypted_note().out_ciphertext);
    }
    v.push(b.flags().to_byte());
    v.extend_from_slice(&b.anchor().to_bytes());
    v.extend_from_slice(&b.value_balance().to_le_bytes());
    v.extend_from_slice(b.commitment().0.as_bytes());
    v
}

/// A layout made concrete: the built bundle, unproven and proven.
pub struct Made {
    pub ctx: Ctx,
    pub uu: UU,
    pub pu: PU,
    pub slot: Vec<usize>,           // slot -> action index
    pub fp: Vec<u8>,
    pub ref_proof: Option<Vec<u8>>, // the proof's bytes
    pub pool: Mutex<HashMap<(usize, String), redpallas::Signature<SpendAuth>>>,
}

pub fn sighash(label: &str, seed: u64) -> [u8; 32] { h32(seed, &format!("sighash {label}")) }

pub fn make(layout: &Value, flags: &str, seed: u64) -> Made {
    let out_on = flags != "noout" && flags != "neither";
    let flags = match flags { "nospend" => Flags::SPENDS_DISABLED, "noout" => Flags::OUTPUTS_DISABLED, "neither" => Flags::from_byte(0).unwrap(), _ => Flags::ENABLED };
    let la = layout.as_array().unwrap();
    let mut r = rng(seed, &format!("layout {layout}"));
    let mut reqs = vec![];
    for (i, sl) in la.iter().enumerate() {
        if s(sl, "owner") != "dummy" {
            let zero = r.gen_range(0..4) == 0;
            reqs.push(json!({"nid": i as i64 + 1, "owner": sl["owner"], "key": sl["owner"], "scope": if r.gen() {"ext"} else {"int"},
                "v": wide(if zero {0} else {r.gen_range(1..1u64 << 40) as i128}), "path": if zero && r.gen() {"bad"} else {"good"}}));
        }
    }
    let refs: Vec<&Value> = reqs.iter().collect();
    let ctx = make_ctx(&refs, seed.wrapping_add(77));
    let dup = (0..la.len()).any(|i| (0..i).any(|j| la[i]["rk"] == la[j]["rk"]));
    let build = |r: &mut dyn RngCore| {
        let mut bld = Builder::new(BundleType::Transactional { flags, bundle_required: true }, ctx.anchor);
        for q in &reqs {
            let nid = n(q, "nid");
            bld.add_spend(ctx.p(s(q, "key")).fvk.clone(), ctx.note(nid), ctx.path(nid)).expect("add_spend");
        }
        let no = if out_on { (la.len() / 2).max(if la.len() > 2 { la.len() } else { 0 }) } else { 0 };
        for i in 0..no {
            let p = &ctx.parties[i % 2];
            bld.add_output(Some(p.ovk(Scope::External)), p.fvk.address_at(i as u32, Scope::External), NoteValue::from_raw(1000 + i as u64), None).expect("add_output");
        }
        bld.build::<i64>(r).expect("build").expect("bundle")
    };
    let (uu, meta) = if dup { build(&mut ConstRng(0x5a17_33c4_9e01_7b2d)) } else { build(&mut r) };
    let mut slot: Vec<usize> = (0..reqs.len()).map(|i| meta.spend_action_index(i).unwrap()).collect();
    for a in 0..uu.actions().len() {
        if slot.len() < la.len() && !slot.contains(&a) { slot.push(a); }
    }
    let pu = uu.clone().create_proof(pk(), rng(seed, "proof")).expect("proof");
    let fp = effects(&uu);
    let keys = ["A", "B", "C"].map(|k| ctx.p(k).ask.clone());
    let ref_proof = pu.clone().apply_signatures(rng(seed, "ref"), [0; 32], &keys).ok().map(|b| b.authorization().proof().as_ref().to_vec());
    Made { ctx, uu, pu, slot, fp, ref_proof, pool: Mutex::new(HashMap::new()) }
}

impl Made {
    /// A valid signature for one slot, as an external signer would make it.
    fn sig_for(&self, i: usize, owner: &str, hl: &str, hh: [u8; 32], seed: u64) -> redpallas::Signature<SpendAuth> {
        if let Some(x) = self.pool.lock().unwrap().get(&(i, hl.to_string())) { return x.clone(); }
        let mut r = rng(seed, &format!("pool {i} {hl}"));
        let mut p = self.uu.clone().prepare(&mut r, hh);
        if owner != "dummy" { p = p.sign(&mut r, &self.ctx.p(owner).ask); }
        let sig = match p.actions()[self.slot[i]].authorization() {
            MaybeSigned::Signature(x) => x.clone(),
            _ => redpallas::Signature::from([0u8; 64]),   // recorded as invalid below
        };
        self.pool.lock().unwrap().insert((i, hl.to_string()), sig.clone());
        sig
    }
    fn make_sig(&self, q: &Value, seed: u64) -> redpallas::Signature<SpendAuth> {
        let hl = s(q, "h");
        let hh = sighash(hl, seed);
        let i = (n(q, "slot") - 1) as usize;
        let mut r = rng(seed, &format!("sig {q}"));
        match s(q, "form") {
            "good" => self.sig_for(i, s(q, "key"), hl, hh, seed),
            "foreign" => self.ctx.p("X").ask.randomize(&pasta_curves::pallas::Scalar::from(r.next_u64())).sign(&mut r, &hh),
            "unrandomized" => match s(q, "key") {
                "dummy" => self.ctx.p("X").ask.randomize(&pasta_curves::pallas::Scalar::from(0)).sign(&mut r, &hh),
                k => self.ctx.p(k).ask.randomize(&pasta_curves::pallas::Scalar::from(0)).sign(&mut r, &hh),
            },
            "binding" => {
                // The bundle's own binding signature, offered as a spend authorization.
                let pu = self.pu.clone().apply_signatures(&mut r, hh, &["A", "B", "C"].map(|k| self.ctx.p(k).ask.clone()));
                match pu {
                    Ok(b) => redpallas::Signature::from(<[u8; 64]>::from(b.authorization().binding_signature())),
                    Err(_) => redpallas::Signature::from([7u8; 64]),
                }
            }
            f => {
                let mut b = <[u8; 64]>::from(&self.sig_for(i, s(q, "key"), hl, hh, seed));
                let at = if f == "bentR" { 0 } else { 32 };
                b[at + r.gen_range(0..31)] ^= 1 << r.gen_range(0..8);
                redpallas::Signature::from(b)
            }
        }
    }
}

/// Re-types a bundle's authorization and back, watching that each datum stays in place.
#[derive(Debug)]
struct Wrap<A>(A);
impl<A: Authorization> Authorization for Wrap<A> {
    type SpendAuth = (usize, A::SpendAuth);
}
/// A bundle's effects only, each action with a label.
#[derive(Clone, Copy, Debug)]
struct Labels;
impl Authorization for Labels { type SpendAuth = usize; }
fn action_bytes<T>(a: &Action<T>) -> Vec<u8> {
    [&a.nullifier().to_bytes()[..], &<[u8; 32]>::from(a.rk()), &a.cmx().to_bytes(), &a.cv_net().to_bytes(), &a.encrypted_note().epk_bytes,
        &a.encrypted_note().enc_ciphertext, &a.encrypted_note().out_ciphertext].concat()
}
/// Re-typing bundles in which the actions are repeated and rearranged.
fn twins<A: Authorization>(b: &Bundle<A, i64>, seed: u64) -> Result<bool, String> {
    let mut r = rng(seed, "twins");
    let na = b.actions().len();
    let bare = |i: usize, k: usize| { let a = &b.actions()[i]; Action::from_parts(*a.nullifier(), a.rk().clone(), *a.cmx(), a.encrypted_note().clone(), a.cv_net().clone(), k) };
    let mut fine = true;
    for which in 0..4 {
        let order: Vec<usize> = match which { 0 => vec![0; 2], 1 => (0..na).flat_map(|i| [i, i]).collect(), 2 => (0..na).chain((0..na).rev()).collect(), _ => (0..r.gen_range(1..20)).map(|_| r.gen_range(0..na)).collect() };
        let acts: Vec<Action<usize>> = order.iter().enumerate().map(|(k, i)| bare(*i, k)).collect();
        let want: Vec<Vec<u8>> = acts.iter().map(action_bytes).collect();
        let one: Bundle<Labels, i64> = Bundle::from_parts(nonempty::NonEmpty::from_vec(acts).unwrap(), *b.flags(), *b.value_balance(), *b.anchor(), Labels);
        let id = one.commitment().0;
        let mut good = |x: &Bundle<Labels, i64>, add: usize| {
            fine &= x.actions().len() == want.len() && x.actions().iter().enumerate().all(|(k, a)| *a.authorization() == k + add && action_bytes(a) == want[k])
                && x.flags() == b.flags() && x.value_balance() == b.value_balance() && x.anchor() == b.anchor() && x.commitment().0 == id;
        };
        let x = one.map_authorization(&mut (), |_, _, k| k + 1, |_, l| l);
        good(&x, 1);
        let x: Bundle<Labels, i64> = x.try_map_authorization(&mut (), |_, _, k| Ok::<_, String>(k + 1), |_, l| Ok(l))?;
        good(&x, 2);
        let x = x.try_map_value_balance(|v| Ok::<_, String>(v as i128 + 5))?.try_map_value_balance(|v| i64::try_from(v - 5).map_err(|e| e.to_string()))?;
        good(&x, 2);
    }
    Ok(fine)
}
fn retype<A: Authorization>(b: Bundle<A, i64>, what: &str, ok: bool, fail_at: usize) -> Result<(Bundle<A, i64>, bool), String> {
    let nacts = b.actions().len();
    let nfs: Vec<_> = b.actions().iter().map(|a| a.nullifier().to_bytes()).collect();
    match what {
        "auth" => {
            let mut k = 0usize;
            let w = b.map_authorization(&mut k, |k, _, a| { *k += 1; (*k - 1, a) }, |_, a| Wrap(a));
            let fine = k == nacts && w.actions().iter().enumerate().all(|(i, a)| a.authorization().0 == i && a.nullifier().to_bytes() == nfs[i]);
            Ok((w.map_authorization(&mut (), |_, _, (_, a)| a, |_, w| w.0), fine))
        }
        "try_auth" => {
            let mut k = 0usize;
            let w = b.try_map_authorization(&mut k,
                |k, _, a| { *k += 1; if !ok && *k - 1 == fail_at { Err("refused".to_string()) } else { Ok((*k - 1, a)) } },
                |_, a| if !ok && fail_at >= nacts { Err("refused".to_string()) } else { Ok(Wrap(a)) })?;
            let fine = k == nacts && w.actions().iter().enumerate().all(|(i, a)| a.authorization().0 == i && a.nullifier().to_bytes() == nfs[i]);
            let b = w.try_map_authorization(&mut (), |_, _, (_, a)| Ok::<_, String>(a), |_, w| Ok(w.0))?;
            Ok((b, fine))
        }
        "twins" => {
            let fine = twins(&b, fail_at as u64)?;
            Ok((b, fine))
        }
        _ => {
            let w = b.try_map_value_balance(|v| if ok { Ok(v as i128 * 3 + 1) } else { Err("refused".to_string()) })?;
            let b = w.try_map_value_balance(|v| i64::try_from((v - 1) / 3).map_err(|e| e.to_string()))?;
            Ok((b, true))
        }
    }
}

fn err(e: &BuildError) -> String {
    match e {
        BuildError::MissingSignatures => "MissingSignatures".into(),
        BuildError::InvalidExternalSignature => "InvalidExternalSignature".into(),
        BuildError::DuplicateSignature => "DuplicateSignature".into(),
        e => format!("{e:?}"),
    }
}

fn partial_slots<P: std::fmt::Debug>(m: &Made, b: &Bundle<InProgress<P, PartiallyAuthorized>, i64>, hh: &[u8; 32]) -> Vec<&'static str> {
    m.slot.iter().map(|&a| {
        let act = &b.actions()[a];
        match act.authorization() {
            MaybeSigned::SigningMetadata(_) => "unsigned",
            MaybeSigned::Signature(x) => if act.rk().verify(hh, x).is_ok() { "valid" } else { "invalid" },
        }
    }).collect()
}

pub fn exec(m: &Made, run: &Run, seed: u64, layout_seed: u64) -> Run {
    let mut r = rng(seed, "auth run");
    let mut out = vec![run[0].clone()];
    let mut st = St::UU(m.uu.clone());
    let mut hh = [0u8; 32];
    let mut proof_bytes: Option<Vec<u8>> = None;
    for c in &run[1..] {
        let mut ev = c.clone();
        let got = guard(|| {
            let cur = std::mem::replace(&mut st, St::Gone);
            let mut res = "Ok".to_string();
            let mut aligned = true;
            let set_h = |c: &Value, hh: &mut [u8; 32]| *hh = sighash(s(c, "h"), layout_seed);
            st = match s(c, "op") {
                "prove" => match cur {
                    St::UU(_) => St::PU(m.pu.clone()),
                    St::UP(b) => match b.create_proof(pk(), &mut r) { Ok(b) => St::PP(b), Err(e) => { res = err(&e); St::Gone } },
                    _ => panic!("prove"),
                },
                "prepare" => { set_h(c, &mut hh); match cur {
                    St::UU(b) => St::UP(b.prepare(&mut r, hh)),
                    St::PU(b) => St::PP(b.prepare(&mut r, hh)),
                    _ => panic!("prepare"),
                } }
                "sign" => { let ask = &m.ctx.p(s(c, "key")).ask; match cur {
                    St::UP(b) => St::UP(b.sign(&mut r, ask)),
                    St::PP(b) => St::PP(b.sign(&mut r, ask)),
                    _ => panic!("sign"),
                } }
                "append" => {
                    let sigs: Vec<_> = arr(c, "sigs").iter().map(|q| m.make_sig(q, layout_seed)).collect();
                    match cur {
                        St::UP(b) => match b.append_signatures(&sigs) { Ok(b) => St::UP(b), Err(e) => { res = err(&e); St::Gone } },
                        St::PP(b) => match b.append_signatures(&sigs) { Ok(b) => St::PP(b), Err(e) => { res = err(&e); St::Gone } },
                        _ => panic!("append"),
                    }
                }
                "finalize" => match cur {
                    St::PP(b) => match b.finalize() { Ok(b) => St::F(b), Err(e) => { res = err(&e); St::Gone } },
                    _ => panic!("finalize"),
                },
                "apply" => { set_h(c, &mut hh); match cur {
                    St::PU(b) => {
                        let keys: Vec<_> = arr(c, "keys").iter().map(|k| m.ctx.p(k.as_str().unwrap()).ask.clone()).collect();
                        match b.apply_signatures(&mut r, hh, &keys) { Ok(b) => St::F(b), Err(e) => { res = err(&e); St::Gone } }
                    }
                    _ => panic!("apply"),
                } }
                "retype" => {
                    let (w, ok, at) = (s(c, "what"), b(c, "ok"), r.gen_range(0..m.slot.len() + 1));
                    macro_rules! go { ($v:ident, $b:expr) => { match retype($b, w, ok, at) { Ok((b, f)) => { aligned = f; St::$v(b) } Err(_) => { res = "refused".into(); St::Gone } } } }
                    match cur { St::UU(b) => go!(UU, b), St::PU(b) => go!(PU, b), St::UP(b) => go!(UP, b), St::PP(b) => go!(PP, b), St::F(b) => go!(F, b), St::Gone => panic!("retype") }
                }
                x => panic!("op {x}"),
            };
            ev["res"] = json!(res);
            ev["aligned"] = json!(aligned);
            let same = |fp: Vec<u8>| if fp == m.fp { "same" } else { "changed" };
            let mut eff = "none";
            let mut slots: Vec<&str> = vec![];
            let mut seal = "none";
            match &st {
                St::UU(b) => eff = same(effects(b)),
                St::PU(b) => eff = same(effects(b)),
                St::UP(b) => { eff = same(effects(b)); slots = partial_slots(m, b, &hh); }
                St::PP(b) => { eff = same(effects(b)); slots = partial_slots(m, b, &hh); }
                St::F(b) => {
                    eff = same(effects(b));
                    slots = m.slot.iter().map(|&a| { let x = &b.actions()[a]; if x.rk().verify(&hh, x.authorization()).is_ok() { "valid" } else { "invalid" } }).collect();
                    // Proof and binding signature of the finished bundle.
                    let bv = b.binding_validating_key().verify(&hh, b.authorization().binding_signature()).is_ok();
                    let pb = b.authorization().proof().as_ref().to_vec();
                    let first = proof_bytes.is_none();
                    let kept = match &proof_bytes { Some(p) => p == &pb, None => true };
                    proof_bytes = Some(pb.clone());
                    let want_known = m.ref_proof.as_ref() == Some(&pb);
                    let pv = if first && (r.gen_range(0..8) == 0 || !want_known) { b.verify_proof(vk()).is_ok() } else { true };
                    seal = if bv && kept && pv { "valid" } else { "invalid" };
                }
                St::Gone => {}
            }
            ev["eff"] = json!(eff);
            ev["slots"] = json!(slots);
            ev["seal"] = json!(seal);
            ev
        });
        match got {
            Ok(e) => out.push(e),
            Err(msg) => { let mut e = c.clone(); e["panic"] = json!(msg); out.push(e); break; }
        }
        if matches!(st, St::Gone) { break; }
    }
    out
}
pub fn exec_runs(runs: &[Run], seed: u64) -> Vec<Run> {
    let mut layouts: Vec<Value> = runs.iter().map(|r| r[0].clone()).collect();
    layouts.sort_by_key(|l| l.to_string());
    layouts.dedup();
    // The same party roster in every layout; a panic here is a behaviour of its own.
    let made: HashMap<String, Result<Made, String>> = layouts.iter().map(|l| (l.to_string(), guard(|| make(&l["layout"], s(l, "flags"), seed)))).collect();
    exec_all(runs, seed, |r, sd| match &made[&r[0].to_string()] {
        Ok(m) => exec(m, r, sd, seed),
        Err(e) => vec![r[0].clone(), json!({"op": "make", "panic": e})],
    })
}
