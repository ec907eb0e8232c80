//! Action statements: circuits from witnesses, public values from the specification's terms.
use crate::eval::{self, Env, Val};
use crate::keyring::{pk, vk};
use crate::oracle;
use crate::sys_keys::sk_bytes;
use crate::util::*;
use crate::world::*;
use ff::{Field, PrimeField};
use group::Group;
use halo2_proofs::dev::MockProver;
use orchard::{
    builder::SpendInfo,
    circuit::{Circuit, Instance, Proof},
    keys::*,
    note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho},
    primitives::redpallas::{SpendAuth, VerificationKey},
    value::{NoteValue, ValueCommitTrapdoor, ValueCommitment},
    Anchor, Note,
};
use pasta_curves::{pallas, vesta};
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};

/// The public values, as bytes.
#[derive(Clone)]
pub struct Public { pub anchor: [u8; 32], pub cv: [u8; 32], pub nf: [u8; 32], pub rk: [u8; 32], pub cmx: [u8; 32], pub es: bool, pub eo: bool }
impl Public {
    pub fn instance(&self) -> Instance {
        Instance::from_parts(
            Anchor::from_bytes(self.anchor).unwrap(),
            ValueCommitment::from_bytes(&self.cv).unwrap(),
            Nullifier::from_bytes(&self.nf).unwrap(),
            VerificationKey::<SpendAuth>::try_from(self.rk).unwrap(),
            ExtractedNoteCommitment::from_bytes(&self.cmx).unwrap(),
            self.es,
            self.eo,
        )
    }
    /// The protocol's encoding of the primary input.
    pub fn column(&self) -> Vec<vesta::Scalar> {
        let f = |b: &[u8; 32]| oracle::base(b).unwrap();
        let xy = |b: &[u8; 32]| {
            use group::Curve;
            use pasta_curves::arithmetic::CurveAffine;
            let p = oracle::point(b).unwrap();
            if bool::from(p.is_identity()) { [pallas::Base::ZERO; 2] } else { let c = p.to_affine().coordinates().unwrap(); [*c.x(), *c.y()] }
        };
        let bit = |b| pallas::Base::from(u64::from(b));
        let (c, k) = (xy(&self.cv), xy(&self.rk));
        vec![f(&self.anchor), c[0], c[1], f(&self.nf), k[0], k[1], f(&self.cmx), bit(self.es), bit(self.eo)]
    }
}
fn flip(b: [u8; 32], r: &mut Rng) -> [u8; 32] {
    loop { let mut x = b; x[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8); if oracle::base(&x).is_some() { return x } }
}

/// A witness made concrete: the environment of its terms, and the circuit if there is one.
/// `honest` holds the public values as the crate derives them.
pub struct Made { pub env: Env, pub circuit: Option<Circuit>, pub honest: Public }
pub fn make(w: &Value, seed: u64) -> Made {
    let mut r = rng(seed, "statement");
    let mut e = Env::new();
    let sks = [sk_bytes(&mut r), sk_bytes(&mut r)];
    let key = |i: usize| SpendingKey::from_bytes(sks[i]).unwrap();
    let fvk = FullViewingKey::from(&key(0));
    let mut d = [0u8; 11];
    r.fill_bytes(&mut d);
    let addr = fvk.address(Diversifier::from_bytes(d), scope(s(w, "scope")));
    let (vo, vn) = (unwide(&w["vo"]) as u64, unwide(&w["vn"]) as u64);
    let rho = rand_rho(&mut r);
    let note = mk_note(addr, vo, rho, &mut r);
    // The tree.
    let pos = match s(w, "pos") { "zero" => 0, "ones" => u32::MAX, _ => r.next_u32() };
    let tree = SparseTree { leaves: vec![(pos, leaf(&note)), (pos ^ (1 << r.gen_range(0..32)), pallas::Base::random(&mut r))], seed, filler: r.gen() };
    let (root, paths) = tree.root_and_paths();
    let (mut p, mut auth) = paths[0];
    let lead = |p: u32, auth: &[pallas::Base; 32], leaf: pallas::Base| (0..32).fold(leaf, |x, l| if (p >> l) & 1 == 0 { oracle::merkle_crh(l, &x, &auth[l]) } else { oracle::merkle_crh(l, &auth[l], &x) });
    assert!(lead(p, &auth, leaf(&note)) == root);
    if s(w, "path") == "bad" {
        loop {
            match r.gen_range(0..3) {
                0 => p ^= 1 << r.gen_range(0..32),
                1 => auth[r.gen_range(0..32)] += pallas::Base::from(1),
                _ => auth[31] = pallas::Base::random(&mut r),
            }
            if lead(p, &auth, leaf(&note)) != root { break; }
        }
    }
    let bad = if s(w, "path") == "bad" { lead(p, &auth, leaf(&note)) } else { pallas::Base::random(&mut r) };
    for (k, x) in [("root", root), ("bad", bad), ("other", pallas::Base::random(&mut r))] { e.insert(format!("anchor.{k}"), Val::Base(x)); }
    // Randomizers.
    e.insert("sk".into(), Val::Bytes(sks[0].to_vec()));
    e.insert("skB".into(), Val::Bytes(sks[1].to_vec()));
    let alpha = match s(w, "alpha") {
        "zero" => pallas::Scalar::ZERO,
        "unask" => {
            let a = oracle::to_scalar(&oracle::blake2b(64, b"Zcash_ExpandSeed", &[&sks[0][..], &[6]].concat()));
            let ak = SpendValidatingKey::from(fvk.clone());
            if <[u8; 32]>::from(ak.randomize(&a)) == [0; 32] { a } else { -a }
        }
        _ => pallas::Scalar::random(&mut r),
    };
    let rcv = if s(w, "rcv") == "zero" { pallas::Scalar::ZERO } else { pallas::Scalar::random(&mut r) };
    for (k, x) in [("alpha", alpha), ("alpha2", pallas::Scalar::random(&mut r)), ("rcv.rcv", rcv), ("rcv.zero", pallas::Scalar::ZERO), ("rcv.minus", -rcv), ("rcv.other", pallas::Scalar::random(&mut r))] {
        e.insert(k.into(), Val::Scalar(x));
    }
    // The new note.
    let nf = note.nullifier(&fvk);
    let new_rho = match s(w, "rho") {
        "nf" => Rho::from_bytes(&nf.to_bytes()).unwrap(),
        "bit" => Rho::from_bytes(&flip(nf.to_bytes(), &mut r)).unwrap(),
        "neg" => Rho::from_bytes(&oracle::base_bytes(&-oracle::base(&nf.to_bytes()).unwrap())).unwrap(),
        "old" => rho,
        _ => rand_rho(&mut r),
    };
    let to = if r.gen() { fvk.address_at(r.next_u32(), Scope::Internal) } else { FullViewingKey::from(&key(1)).address_at(r.next_u32(), Scope::External) };
    let mut new = mk_note(to, vn, new_rho, &mut r);
    if s(w, "rho") == "nf" && r.gen_range(0..4) == 0 {
        // The same seed in both notes.
        let rs = RandomSeed::from_bytes(*note.rseed().as_bytes(), &new_rho);
        if bool::from(rs.is_some()) { new = Option::from(Note::from_parts(to, NoteValue::from_raw(vn), new_rho, rs.unwrap())).unwrap_or(new); }
    }
    let raw = to.to_raw_address_bytes();
    e.insert("d".into(), Val::Bytes(d.to_vec()));
    e.insert("dn".into(), Val::Bytes(raw[..11].to_vec()));
    e.insert("pkdn".into(), Val::Point(oracle::point(&raw[11..]).unwrap()));
    e.insert("rho".into(), Val::Base(oracle::base(&rho.to_bytes()).unwrap()));
    let mut rs = *note.rseed().as_bytes();
    e.insert("rsn".into(), Val::Bytes(new.rseed().as_bytes().to_vec()));
    e.insert("rs".into(), Val::Bytes(rs.to_vec()));
    if rs == *new.rseed().as_bytes() { rs[0] ^= 1; }
    e.insert("rs.other".into(), Val::Bytes(rs.to_vec()));
    for (k, v) in [("vo", vo), ("vn", vn), ("vx", vn ^ (1 << r.gen_range(0..64)))] { e.insert(k.into(), Val::Bytes(v.to_le_bytes().to_vec())); }
    let path = mpath(p, &auth);
    let honest = Public {
        anchor: oracle::base_bytes(&root),
        cv: ValueCommitment::derive(note.value() - new.value(), ValueCommitTrapdoor::from_bytes(rcv.to_repr()).unwrap()).to_bytes(),
        nf: nf.to_bytes(),
        rk: SpendValidatingKey::from(fvk.clone()).randomize(&alpha).into(),
        cmx: cmx(&new).to_bytes(),
        es: b(w, "es"),
        eo: b(w, "eo"),
    };
    let circuit = SpendInfo::new(fvk, note, path).and_then(|sp| Circuit::from_action_context(sp, new, alpha, ValueCommitTrapdoor::from_bytes(rcv.to_repr()).unwrap()));
    Made { env: e, circuit, honest }
}
pub fn public(terms: &Value, p: &Value, env: &Env) -> Public {
    let g = |k: &str| -> [u8; 32] { hex::decode(eval::hexof(&terms[k], env)).unwrap().try_into().unwrap() };
    Public { anchor: g("anchor"), cv: g("cv"), nf: g("nf"), rk: g("rk"), cmx: g("cmx"), es: b(p, "es"), eo: b(p, "eo") }
}
fn exec(run: &Run, seed: u64) -> Run {
    run.iter().map(|c| {
        let mut ev = c.clone();
        ev["terms"] = json!("evaluated");
        let res = guard(|| {
            let m = make(&c["w"], seed);
            match m.circuit {
                None => "refused",
                Some(_) if s(&c["w"], "rho") != "nf" => "assembled",
                Some(circuit) => {
                    let p = public(&c["terms"], &c["p"], &m.env);
                    let ok = if s(c, "how") == "mock" {
                        MockProver::run(11, &circuit, vec![p.column()]).unwrap().verify().is_ok()
                    } else {
                        let inst = [p.instance()];
                        match Proof::create(pk(), &[circuit], &inst, rng(seed, "real proof")) { Ok(pf) => pf.verify(vk(), &inst).is_ok(), Err(_) => false }
                    };
                    if ok { "proven" } else { "not proven" }
                }
            }
        });
        match res { Ok(x) => ev["res"] = json!(x), Err(m) => ev["panic"] = json!(m) }
        ev
    }).collect()
}
pub fn exec_runs(runs: &[Run], seed: u64, reps: usize) -> Vec<Run> {
    (0..reps as u64).flat_map(|i| exec_all(runs, seed.wrapping_add(i * 977), exec)).collect()
}
