//! Bundles assembled from arbitrary well-formed parts, given to everything that consumes bundles.
use crate::keyring::{pk, vk};
use crate::oracle;
use crate::stock::{Full, SpendSig};
use crate::sys_auth::sighash;
use crate::sys_builder::make_ctx;
use crate::util::*;
use crate::world::Party;
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use nonempty::NonEmpty;
use orchard::{
    builder::*,
    bundle::{Authorized, BatchValidator, Bundle, Flags},
    circuit::Proof,
    keys::*,
    note::{ExtractedNoteCommitment, Nullifier, TransmittedNoteCiphertext},
    note_encryption::{CompactAction, OrchardDomain},
    primitives::redpallas::{self, Binding, SpendAuth, VerificationKey},
    value::{NoteValue, ValueCommitment},
    Action, Anchor, Note,
};
use pasta_curves::pallas;
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use zcash_note_encryption::{batch, try_compact_note_decryption, try_note_decryption, try_output_recovery_with_ovk};

/// What an output of the base is, and who can read it.
struct Sent { key: usize, note: Note, memo: [u8; 512] }
struct Base { parts: Vec<BTreeMap<&'static str, Vec<u8>>>, flags: u8, bal: i64, anchor: [u8; 32], proof: Vec<u8>, bsig: [u8; 64], sent: Vec<Sent>, tx: [u8; 32], auth: [u8; 32] }
struct World { bases: BTreeMap<String, Base>, good: Full, hash: [u8; 32], seed: u64, ivks: Vec<IncomingViewingKey>, ovks: Vec<OutgoingViewingKey> }

fn parts(a: &Action<SpendSig>) -> BTreeMap<&'static str, Vec<u8>> {
    let e = a.encrypted_note();
    let rk: [u8; 32] = a.rk().into();
    let sig: [u8; 64] = a.authorization().into();
    [("nf", a.nullifier().to_bytes().to_vec()), ("rk", rk.to_vec()), ("cmx", a.cmx().to_bytes().to_vec()), ("cv", a.cv_net().to_bytes().to_vec()),
        ("epk", e.epk_bytes.to_vec()), ("enc", e.enc_ciphertext.to_vec()), ("out", e.out_ciphertext.to_vec()), ("sig", sig.to_vec())].into_iter().collect()
}
fn make(name: &str, seed: u64, ivks: &[IncomingViewingKey], ovks: &[OutgoingViewingKey], rcpt: &[orchard::Address]) -> (Base, Full) {
    let mut r = rng(seed, &format!("wire {name}"));
    let two = name == "two";
    let reqs: Vec<Value> = if two { ["A", "B"].iter().enumerate().map(|(i, o)| json!({"nid": i as i64 + 1, "owner": o, "key": o, "scope": "ext", "v": wide(r.gen_range(1i128 << 40..1i128 << 41)), "path": "good"})).collect() } else { vec![] };
    let ctx = make_ctx(&reqs.iter().collect::<Vec<_>>(), seed);
    let mut b = Builder::new(if two { BundleType::DEFAULT } else { BundleType::Coinbase }, ctx.anchor);
    for q in &reqs { b.add_spend(ctx.p(s(q, "key")).fvk.clone(), ctx.note(n(q, "nid")), ctx.path(n(q, "nid"))).expect("add_spend"); }
    let mut memos = vec![];
    for i in 0..if two { 2 } else { 1 } {
        let mut m = [0u8; 512];
        r.fill_bytes(&mut m);
        memos.push(m);
        b.add_output(Some(ovks[1].clone()), rcpt[i], NoteValue::from_raw(r.gen_range(1000..1 << 39)), Some(m)).expect("add_output");
    }
    let (b, _) = b.build::<i64>(&mut r).expect("build").expect("bundle");
    let keys = ["A", "B"].map(|k| ctx.p(k).ask.clone());
    let b = b.create_proof(pk(), &mut r).expect("proof").apply_signatures(&mut r, sighash("h1", seed), &keys).expect("apply_signatures");
    let sent = (0..b.actions().len()).map(|i| {
        let (key, (note, _, memo)) = (1..3).find_map(|k| b.decrypt_output_with_key(i, &ivks[k]).map(|x| (k, x))).expect("the recipient reads the output");
        assert!(memos.contains(&memo), "the memo sent");
        Sent { key, note, memo }
    }).collect();
    (Base {
        parts: b.actions().iter().map(parts).collect(), flags: b.flags().to_byte(), bal: *b.value_balance(), anchor: b.anchor().to_bytes(),
        proof: b.authorization().proof().as_ref().to_vec(), bsig: b.authorization().binding_signature().into(), sent,
        tx: b.commitment().into(), auth: b.authorizing_commitment().0.as_bytes().try_into().unwrap(),
    }, b)
}
fn world(seed: u64) -> World {
    let p: Vec<Party> = ["nobody", "one", "two"].iter().map(|x| Party::new(seed, x)).collect();
    let ivks = vec![p[0].ivk(Scope::External), p[1].ivk(Scope::Internal), p[2].ivk(Scope::External)];
    let ovks = vec![p[0].ovk(Scope::External), p[1].ovk(Scope::External)];
    let rcpt = vec![p[1].fvk.address_at(3u32, Scope::Internal), p[2].fvk.address_at(1u32 << 31, Scope::External)];
    let (two, good) = make("two", seed, &ivks, &ovks, &rcpt);
    let (mint, _) = make("mint", seed, &ivks, &ovks, &rcpt);
    World { bases: [("two".to_string(), two), ("mint".to_string(), mint)].into_iter().collect(), good, hash: sighash("h1", seed), seed, ivks, ovks }
}
fn base_max() -> [u8; 32] { oracle::base_bytes(&-pallas::Base::from(1)) }
fn bend(mut b: Vec<u8>, x: &str) -> Vec<u8> {
    match x {
        "rzero" => b[..32].fill(0),
        "szero" => b[32..].fill(0),
        _ => panic!("bend"),
    }
    b
}
impl World {
    /// The bytes a name of the specification stands for in place of part f.
    fn value(&self, bs: &Base, f: &str, x: &str) -> Vec<u8> {
        let own = |x: &str| -> Vec<u8> { bs.parts[x[f.len()..].parse::<usize>().unwrap() - 1][f].clone() };
        let len = match f { "enc" => 580, "out" => 80, "sig" => 64, _ => 32 };
        let mut r = rng(self.seed, x);
        if let Some(k) = x.strip_prefix("neg") { return (-oracle::point(&<[u8; 32]>::try_from(own(k)).unwrap()).unwrap()).to_bytes().to_vec(); }
        if let Some(k) = x.strip_prefix("tag") { let mut v = own(k); let i = v.len() - 1 - r.gen_range(0..16); v[i] ^= 1 << r.gen_range(0..8); return v; }
        if let Some(k) = x.strip_prefix("rzero") { return bend(own(k), "rzero"); }
        if let Some(k) = x.strip_prefix("szero") { return bend(own(k), "szero"); }
        if x.starts_with("fresh") {
            return match f {
                "nf" | "cmx" => oracle::base_bytes(&pallas::Base::random(&mut r)).to_vec(),
                "rk" | "cv" | "epk" => pallas::Point::random(&mut r).to_bytes().to_vec(),
                "sig" => [pallas::Point::random(&mut r).to_bytes(), pallas::Scalar::random(&mut r).to_repr()].concat(),
                _ => { let mut v = vec![0; len]; r.fill_bytes(&mut v); v }
            };
        }
        match x {
            "zero" | "id" => vec![0; len],
            "ones" => vec![0xff; len],
            "max" => base_max().to_vec(),
            "gen" => pallas::Point::generator().to_bytes().to_vec(),
            x => own(x),
        }
    }
    fn assemble(&self, bs: &Base, acts: &[BTreeMap<&'static str, String>], top: &BTreeMap<String, String>) -> (Full, [u8; 32]) {
        let mut r = rng(self.seed, "wire top");
        let actions = acts.iter().map(|a| {
            let v = |f: &str| self.value(bs, f, &a[f]);
            let w = |f: &str| -> [u8; 32] { v(f).try_into().unwrap() };
            Action::from_parts(
                Nullifier::from_bytes(&w("nf")).unwrap(),
                VerificationKey::<SpendAuth>::try_from(w("rk")).expect("rk"),
                ExtractedNoteCommitment::from_bytes(&w("cmx")).unwrap(),
                TransmittedNoteCiphertext { epk_bytes: w("epk"), enc_ciphertext: v("enc").try_into().unwrap(), out_ciphertext: v("out").try_into().unwrap() },
                ValueCommitment::from_bytes(&w("cv")).unwrap(),
                redpallas::Signature::from(<[u8; 64]>::try_from(v("sig")).unwrap()),
            )
        }).collect::<Vec<_>>();
        let flags = Flags::from_byte(match top["flags"].as_str() { "own" => bs.flags, x => x.parse().unwrap() }).unwrap();
        let bal = match top["bal"].as_str() { "own" => bs.bal, "zero" => 0, "one" => 1, "neg" => -bs.bal, "min" => i64::MIN, _ => i64::MAX };
        let anchor = match top["anchor"].as_str() {
            "own" => Anchor::from_bytes(bs.anchor).unwrap(),
            "empty" => Anchor::empty_tree(),
            "zero" => Anchor::from_bytes([0; 32]).unwrap(),
            "max" => Anchor::from_bytes(base_max()).unwrap(),
            _ => Anchor::from_bytes(oracle::base_bytes(&pallas::Base::random(&mut r))).unwrap(),
        };
        let l = bs.proof.len();
        let proof = match top["proof"].as_str() {
            "own" => bs.proof.clone(),
            "none" => vec![],
            "zero" => vec![0; l],
            "ones" => vec![0xff; l],
            "short" => bs.proof[..l - [1, 31, 32, l / 2][r.gen_range(0..4)]].to_vec(),
            "long" => [&bs.proof[..], &[7; 40]].concat(),
            _ => { let mut v = vec![0; l]; r.fill_bytes(&mut v); v }
        };
        let bsig: [u8; 64] = match top["bsig"].as_str() {
            "own" => bs.bsig,
            "zero" => [0; 64],
            "ones" => [0xff; 64],
            "fresh" => [pallas::Point::random(&mut r).to_bytes(), pallas::Scalar::random(&mut r).to_repr()].concat().try_into().unwrap(),
            x => bend(bs.bsig.to_vec(), x).try_into().unwrap(),
        };
        let hash = match top["hash"].as_str() { "own" => self.hash, "zero" => [0; 32], _ => sighash("h2", self.seed) };
        (Bundle::from_parts(NonEmpty::from_vec(actions).unwrap(), flags, bal, anchor, Authorized::from_parts(Proof::new(proof), redpallas::Signature::<Binding>::from(bsig))), hash)
    }
    fn consume(&self, bs: &Base, f: &Full, hash: [u8; 32], edits: usize, r: &mut Rng) -> Value {
        let which = |key: Option<usize>, n: &Note, a: &orchard::Address, m: Option<&[u8; 512]>| -> Value {
            let k = bs.sent.iter().position(|t| key.map_or(true, |k| k == t.key) && t.note == *n && t.note.recipient() == *a && n.recipient() == *a && t.note.value() == n.value()
                && m.map_or(true, |m| *m == t.memo) && t.note.rseed().as_bytes() == n.rseed().as_bytes());
            json!(k.map_or("wrong".to_string(), |k| (k + 1).to_string()))
        };
        let hit = |i: usize, k: Value| json!({"i": i + 1, "k": k});
        let ipos = |k: &IncomingViewingKey| self.ivks.iter().position(|x| x == k);
        let dec: Vec<Value> = f.decrypt_outputs_with_keys(&self.ivks).iter().map(|(i, k, n, a, m)| hit(*i, which(ipos(k), n, a, Some(m)))).collect();
        let mut one = vec![];
        let (mut compact, mut rec) = (vec![], vec![]);
        for (i, a) in f.actions().iter().enumerate() {
            let d = OrchardDomain::for_action(a);
            let c = CompactAction::from(a);
            let cd = OrchardDomain::for_compact_action(&c);
            for (j, k) in self.ivks.iter().enumerate() {
                let p = PreparedIncomingViewingKey::new(k);
                if f.actions().len() < 5 || j == bs.sent[0].key {
                    let x = f.decrypt_output_with_key(i, k).map(|(n, a, m)| which(Some(j), &n, &a, Some(&m)));
                    let y = try_note_decryption(&d, &p, a).map(|(n, a, m)| which(Some(j), &n, &a, Some(&m)));
                    if let Some(x) = &x { one.push(hit(i, x.clone())); }
                    if x != y { one.push(hit(i, json!("unlike"))); }
                    if let Some((n, a)) = try_compact_note_decryption(&cd, &p, &c) { compact.push(hit(i, which(Some(j), &n, &a, None))); }
                }
            }
            for k in &self.ovks {
                let x = f.recover_output_with_ovk(i, k).map(|(n, a, m)| which(None, &n, &a, Some(&m)));
                let y = try_output_recovery_with_ovk(&d, k, a, a.cv_net(), &a.encrypted_note().out_ciphertext).map(|(n, a, m)| which(None, &n, &a, Some(&m)));
                if let Some(x) = &x { rec.push(hit(i, x.clone())); }
                if x != y { rec.push(hit(i, json!("unlike"))); }
            }
        }
        let many: Vec<Value> = f.recover_outputs_with_ovks(&self.ovks).iter().map(|(i, _, n, a, m)| hit(*i, which(None, n, a, Some(m)))).collect();
        if many != rec { rec.push(json!({"i": 0, "k": "unlike"})); }
        let prep: Vec<_> = self.ivks.iter().map(PreparedIncomingViewingKey::new).collect();
        let items: Vec<_> = f.actions().iter().map(|a| { let c = CompactAction::from(a); (OrchardDomain::for_compact_action(&c), c) }).collect();
        let batched: Vec<Value> = batch::try_compact_note_decryption(&prep, &items).iter().enumerate().filter_map(|(i, x)| x.as_ref().map(|((n, a), k)| hit(i, which(Some(*k), n, a, None)))).collect();
        if f.actions().len() < 5 && batched != compact { compact.push(json!({"i": 0, "k": "unlike"})); }
        if f.actions().len() >= 5 { compact = batched; one = dec.clone(); }
        let validate = |with: bool, r: &mut Rng| {
            let mut v = BatchValidator::new();
            let first = r.gen::<bool>();
            if with && first { v.add_bundle(&self.good, self.hash); }
            v.add_bundle(f, hash);
            if with && !first { v.add_bundle(&self.good, self.hash); }
            v.validate(vk(), &mut *r)
        };
        let tx: [u8; 32] = f.commitment().into();
        let auth: [u8; 32] = f.authorizing_commitment().0.as_bytes().try_into().unwrap();
        let m = f.clone().map_authorization(&mut (), |_, _, s| s, |_, a| a).try_map_value_balance(Ok::<i64, ()>).unwrap()
            .try_map_authorization(&mut (), |_, _, s| Ok::<_, ()>(s), |_, a| Ok(a)).unwrap();
        let same = <[u8; 32]>::from(m.commitment()) == tx && <[u8; 32]>::try_from(m.authorizing_commitment().0.as_bytes()).unwrap() == auth
            && m.actions().iter().zip(f.actions().iter()).all(|(x, y)| { let z = x.clone().try_map(Ok::<_, ()>).unwrap(); parts(&z) == parts(y) });
        let shown = !format!("{f:?}").is_empty() && f.actions().iter().all(|a| !format!("{a:?} {:?}", a.rho()).is_empty());
        // Every kind of verification when little was edited, else one of them.
        let k = r.gen_range(0..3);
        let some = |i: usize| edits < 2 || k == i;
        let mut v = json!({});
        if some(0) { v["proof"] = json!(f.verify_proof(vk()).is_ok()); }
        if some(1) { v["batch"] = json!(validate(false, r)); }
        if some(2) { v["mixed"] = json!(validate(true, r)); }
        let rest = json!({
            "sigs": f.actions().iter().map(|a| a.rk().verify(&hash, a.authorization()).is_ok()).collect::<Vec<_>>(),
            "bind": f.binding_validating_key().verify(&hash, f.authorization().binding_signature()).is_ok(),
            "dec": dec, "one": one, "compact": compact, "rec": rec,
            "tx": tx == bs.tx, "auth": auth == bs.auth,
            "mapped": if same { "same" } else { "altered" }, "shown": if shown { "shown" } else { "" },
        });
        v.as_object_mut().unwrap().extend(rest.as_object().unwrap().clone());
        v
    }
    fn exec(&self, run: &Run, seed: u64) -> Run {
        let mut r = rng(seed, "wire run");
        let bs = &self.bases[s(&run[0], "base")];
        const F: [&str; 8] = ["nf", "rk", "cmx", "cv", "epk", "enc", "out", "sig"];
        let mut acts: Vec<BTreeMap<&'static str, String>> = (1..=bs.parts.len()).map(|i| F.iter().map(|f| (*f, format!("{f}{i}"))).collect()).collect();
        let null: BTreeMap<&'static str, String> = F.iter().map(|f| (*f, if *f == "rk" || *f == "cv" { "id".to_string() } else { "zero".to_string() })).collect();
        let mut top: BTreeMap<String, String> = ["flags", "bal", "anchor", "proof", "bsig", "hash"].iter().map(|k| (k.to_string(), "own".to_string())).collect();
        let set = |a: &mut BTreeMap<&'static str, String>, f: &str, x: &str| {
            let v = a.get_mut(f).unwrap();
            *v = match x {
                "peer" => if v.ends_with('1') { format!("{f}2") } else { format!("{f}1") },
                "neg" | "tag" | "fresh" | "rzero" | "szero" => format!("{x}{v}"),
                x => x.to_string(),
            };
        };
        let mut out = vec![run[0].clone()];
        for c in &run[1..] {
            let mut ev = c.clone();
            let at = |k: &str| n(c, k) as usize - 1;
            match s(c, "op") {
                "part" => set(&mut acts[at("i")], s(c, "f"), s(c, "x")),
                "all" => for a in acts.iter_mut() { set(a, s(c, "f"), s(c, "x")) },
                "top" => { top.insert(s(c, "g").into(), s(c, "x").into()); }
                "null" => acts[at("i")] = null.clone(),
                "swap" => acts.swap(0, 1),
                "drop" => { acts.remove(at("i")); }
                "again" => for _ in 0..n(c, "k") { let a = acts[at("i")].clone(); acts.push(a); },
                "addnull" => acts.push(null.clone()),
                "consume" => match guard(|| { let (f, h) = self.assemble(bs, &acts, &top); self.consume(bs, &f, h, run.len() - 2, &mut r) }) {
                    Ok(x) => ev["saw"] = x,
                    Err(m) => ev["panic"] = json!(m),
                },
                x => panic!("op {x}"),
            }
            out.push(ev);
        }
        out
    }
}
pub fn exec_runs(runs: &[Run], seed: u64, reps: usize) -> Vec<Run> {
    (0..reps as u64).flat_map(|i| { let w = world(seed.wrapping_add(i * 77)); exec_all(runs, seed.wrapping_add(i * 977), |r, sd| w.exec(r, sd)) }).collect()
}
